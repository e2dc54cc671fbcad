"""C23: the configured or the only matching serial port is opened as configured."""
import asyncio

import serial
import voluptuous
from serial.tools.list_ports_common import ListPortInfo
from zigpy_cc.api import API

from lib import port, rig, vloop, znp
from lib.core import Violation

PROP = "C23"
CASES = {"quick": 16000, "thorough": 300000}
RULE = ("A case is a list of attached ports (0-3 matching, others similar), a path or 'auto', speed and flow control, and "
        "one way of connecting (API, probe, application startup, recovery after the adapter moved to another port). "
        "Distinct = distinct (port list, path, settings, way); non-trivial = the arguments of the opening and the first "
        "bytes on the line were judged.")
ASSUMPTIONS = ["port lists have the form pyserial reports (hwid 'USB VID:PID=...')",
               "no serial number or description contains '0451:' or '1a86:7523'"]
REQUIRED = {"auto_one": 1500, "auto_none": 800, "auto_several": 1200, "explicit": 2500, "explicit_other_matching": 800,
            "opened": 5000, "rtscts": 1200, "xonxoff": 1200, "no_flow": 1200, "commands": 20000, "refused_raised": 1500,
            "moved": 150, "first_bytes": 5000, "startup": 600, "probe": 1500}

PATHS = ("/dev/null", "/dev/zero", "/dev/full", "/dev/random", "/dev/urandom", "/dev/tty")
BAUDS = (115200, 9600, 19200, 38400, 57600, 230400, 460800, 921600, 1000000, 300)
TI = ((0x0451, 0x16A8), (0x0451, 0xBEF3), (0x0451, 0), (0x0451, 0xFFFF), (0x0451, 0x0451), (0x0451, 0x7523))
QH = ((0x1A86, 0x7523),)
OTHER = ((0x1A86, 0x5523), (0x1A86, 0x7522), (0x1A86, 0), (0x10C4, 0xEA60), (0x1CF1, 0x0030), (0x0403, 0x6001), (0x0450, 0x16A8),
         (0x0452, 0x16A8), (0x1451, 0x16A8), (0x4510, 0x4510), (0x16A8, 0x0451), (0x7523, 0x1A86), (0x1A87, 0x7523),
         (0x10C4, 0x0451), (0x1A85, 0x7523), (0x0A86, 0x7523), (0x0045, 0x1000))


def info(path, ids, rng):
    p = ListPortInfo(path)
    p.description = rng.choice(("n/a", "TI CC2531 USB CDC", "USB2.0-Serial", "0451", "zzh 1a86", "CC2652 0451 7523"))
    if ids is None:
        p.hwid = rng.choice(("n/a", "PNP0501", "0451"))
        return p
    p.vid, p.pid = ids
    p.serial_number = rng.choice((None, "L1", "0451", "__0X00124B0014D9A8B1", "00:12:4B:04:51", "1a867523"))
    p.location = rng.choice((None, "1-1", "1-1.4:1.0", "3-7523"))
    p.product = rng.choice((None, "TI CC2531 USB CDC", "USB2.0-Serial"))
    p.manufacturer = rng.choice((None, "Texas Instruments", "1a86"))
    p.apply_usb_info()
    if rng.random() < 0.3:
        p.description = rng.choice(("n/a", "Texas Instruments", "ttyACM0"))
    return p


def make_case(i, rng, ctx):
    way = rng.choice(("api", "api", "api", "api", "probe", "startup", "move"))
    auto = rng.random() < 0.6 or way == "move"
    n = 1 if way == "move" else rng.choice((0, 1, 1, 1, 2, 2, 3))
    ids = [rng.choice(TI + QH * 3) for _ in range(n)]
    ids += [rng.choice(OTHER + (None, None, None)) for _ in range(rng.choice((0, 1, 2, 3)))]
    ids = ids[:len(PATHS)]
    rng.shuffle(ids)
    paths = rng.sample(PATHS, len(ids))
    free = [p for p in PATHS if p not in paths]
    return {"way": way, "auto": auto, "ports": list(zip(paths, ids)),
            "explicit": rng.choice(paths + free[:1]) if (paths + free) else PATHS[0],
            "baud": rng.choice((None,) + BAUDS), "flow": rng.choice(("absent", None, "hardware", "software")),
            "product": rng.randrange(3), "moved": rng.choice(free) if free else PATHS[0]}


def run_case(case, rng, ctx):
    try:
        vloop.run(lambda loop: _run(loop, case, rng, ctx))
    except voluptuous.Invalid as e:
        raise Violation("a valid configuration was refused: %s" % e)


def matching(ids):
    return ids is not None and (ids[0] == 0x0451 or ids == (0x1A86, 0x7523))


def judge(o, want, case, ctx):
    t, url, kw, p = o
    if url != want:
        raise Violation("opened %s, must be %s" % (url, want), ports=case["ports"])
    flow = case["flow"]
    exp = {"baudrate": case["baud"] or 115200, "rtscts": flow == "hardware", "xonxoff": flow == "software",
           "parity": "N", "stopbits": 1, "bytesize": 8, "dsrdtr": False}
    default = {"baudrate": 9600, "rtscts": False, "xonxoff": False, "parity": "N", "stopbits": 1, "bytesize": 8,
               "dsrdtr": False}
    for k, v in exp.items():
        g = kw.get(k, default[k])
        if g != v and not (k == "dsrdtr" and not g):
            raise Violation("%s is %r, configured is %r" % (k, g, v), arguments=dict(kw), flow=flow)
    ctx.count("opened")
    ctx.count({"hardware": "rtscts", "software": "xonxoff"}.get(flow, "no_flow"))


def first(p, ctx):
    """The skip byte, then a pause, then commands."""
    if not p.tx_log:
        raise Violation("nothing was written to the port")
    t0, b0 = p.tx_log[0]
    if b0 != b"\xef":
        raise Violation("the first bytes written are %s, not the bootloader skip" % b0.hex())
    for t, b in p.tx_log[1:]:
        if t < t0 + 1.0 - 1e-6:
            raise Violation("%s was written %.4f s after the bootloader skip" % (b.hex(), t - t0))
    if len(p.tx_log) > 1:
        ctx.count("first_bytes")
        if p.tx_log[1][0] > t0 + 1.5:
            raise Violation("the first command was written %.3f s after the bootloader skip" % (p.tx_log[1][0] - t0))
    ctx.count("commands", len(p.tx_log) - 1)


async def _run(loop, case, rng, ctx):
    world = port.World(loop)
    zs = {}
    for path in PATHS:
        zs[path] = znp.Znp(world, product=case["product"], rng=rng)
        world.attach(path, zs[path])
    world.comports = [info(p, ids, rng) for p, ids in case["ports"]]
    hits = [p for p, ids in case["ports"] if matching(ids)]
    auto = case["auto"]
    cfg = {"path": "auto" if auto else case["explicit"]}
    if case["baud"]:
        cfg["baudrate"] = case["baud"]
    if case["flow"] != "absent":
        cfg["flow_control"] = case["flow"]
    want = (hits[0] if len(hits) == 1 else None) if auto else case["explicit"]
    if auto:
        ctx.count("auto_one" if len(hits) == 1 else "auto_several" if hits else "auto_none")
    else:
        ctx.count("explicit")
        if [h for h in hits if h != case["explicit"]]:
            ctx.count("explicit_other_matching")
    way = case["way"]
    api = app = None
    if way == "api":
        r = await rig.outcome(API.new(rig.RecorderApp(loop), rig.device_config(**cfg)), 30)
        if r[0] == "ok":
            api = r[1]
            # commands right away, several callers
            await asyncio.gather(api.version(), api.request(1, "ping", {"capabilities": 1}),
                                 api.request(7, "getDeviceInfo", {}))
    elif way == "probe":
        ctx.count("probe")
        r = await rig.outcome(API.probe(dict(cfg)), 30)
        if r != ("ok", want is not None):
            raise Violation("probe gave %r, ports %r" % (r, case["ports"]))
    else:
        ctx.count("startup")
        app = rig.App(rig.app_config(**cfg))
        r = await rig.outcome(app.startup(auto_form=rng.random() < 0.3), 600)
    ctx.sig(case["ports"], auto, case["explicit"], case["baud"], case["flow"], way)
    if want is None:
        if world.opens:
            raise Violation("opened %s although %d adapters match" % (world.opens[0][1], len(hits)), ports=case["ports"])
        if way != "probe":
            if r[0] != "error" or not isinstance(r[1], serial.SerialException):
                raise Violation("%d matching adapters: outcome %r, must be a serial error" % (len(hits), r))
            ctx.count("refused_raised")
        await asyncio.sleep(30)
        if world.opens:
            raise Violation("opened %s later" % world.opens[0][1])
        rig.check_escaped(loop)
        return
    if r[0] != "ok":
        raise Violation("connecting failed: %r" % (r,), ports=case["ports"])
    if way == "move":
        # the adapter is unplugged and comes back under another path
        await asyncio.sleep(rng.choice((0.0, 1.0, 100.0)))
        new = case["moved"]
        n = len(world.opens)
        first(world.opens[0][3], ctx)
        judge(world.opens[0], want, case, ctx)
        zs[want].port.lose()
        ids = [i for p, i in case["ports"] if p == want][0]
        world.comports = [info(p, i, rng) for p, i in case["ports"] if p != want and p != new] + [info(new, ids, rng)]
        await asyncio.sleep(60)
        if len(world.opens) == n:
            raise Violation("the adapter was not opened again")
        want = new
        for o in world.opens[n:]:
            judge(o, want, case, ctx)
        ctx.count("moved")
    for o in world.opens:
        if way != "move":
            judge(o, want, case, ctx)
        first(o[3], ctx)
    ctx.sample({"ports": [str(p) + " " + p.hwid for p in world.comports], "config": cfg,
                "opened": world.opens[-1][1], "arguments": {k: str(v) for k, v in world.opens[-1][2].items()},
                "first writes": [(round(t, 4), b.hex()) for t, b in world.opens[-1][3].tx_log[:3]]})
    if api is not None:
        api.close()
    if app is not None:
        await app.shutdown()
    await asyncio.sleep(1)
    rig.check_escaped(loop)
