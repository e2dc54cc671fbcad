"""C22: probing answers truthfully and always releases the port."""
import asyncio
import termios

import serial
from zigpy_cc.api import API
from zigpy_cc.zigbee.application import ControllerApplication

from lib import adapter, gen, mtspec as mt, port, rig, vloop
from lib.core import Violation

PROP = "C22"
CASES = {"quick": 40000, "thorough": 300000}
RULE = ("A case is one probe (or two at the same time, on two ports) of an adapter that answers the version query after a "
        "chosen delay, answers something else, stays silent, or whose port cannot be opened, is lost or starts refusing "
        "writes at a chosen moment; some probes are cancelled. Distinct = distinct (behaviour, time, fault, firmware); "
        "non-trivial = the probe's result, its time and the port's state afterwards were judged.")
ASSUMPTIONS = ["the configuration is valid (its path exists)", "the port accepts output eventually",
               "fails as pyserial fails: SerialException while open; SerialException, OSError, termios.error or "
               "ValueError when opening"]
REQUIRED = {"true": 2000, "false": 4000, "open_failed": 700, "lost": 1200, "lost_before_query": 500, "cancelled": 1000,
            "late": 400, "silent": 400, "wrong": 800, "noise": 2500, "auto": 800, "pair": 800, "near_limit": 400,
            "then_used": 1500, "lost_cancelled": 100, "partial": 500, "noise_before_query": 4000, "auto_not_one": 400}

OPEN_ERRORS = (lambda: serial.SerialException(2, "could not open port"), lambda: serial.SerialException(16, "busy"),
               lambda: FileNotFoundError(2, "No such file or directory"), lambda: PermissionError(13, "Permission denied"),
               lambda: OSError(5, "Input/output error"), lambda: OSError(16, "Device or resource busy"),
               lambda: termios.error(25, "Inappropriate ioctl for device"), lambda: termios.error(5, "Input/output error"),
               lambda: ValueError("Not a valid baudrate"))
PATHS = ("/dev/null", "/dev/zero", "/dev/full")


class Dev(adapter.Adapter):
    """Answers the version query as told."""

    def __init__(self, world, rng, ctx, kind, delay, noise):
        super().__init__(world)
        self.rng, self.ctx, self.kind, self.d, self.noise = rng, ctx, kind, delay, noise
        self.queries = []
        self.answered = None        # time the answer was on the line

    def junk(self):
        rng = self.rng
        k = rng.randrange(4)
        self.ctx.count("noise")
        if k == 0:
            return bytes(rng.choice([b for b in range(256) if b != 0xFE]) for _ in range(rng.choice((1, 3, 40))))
        if k == 1:
            c = rng.choice(gen.AREQS)
            return gen.areq(c, gen.payload(c.req, rng, 60))
        if k == 2:
            f = bytearray(self.version())
            f[-1] ^= 1 << rng.randrange(8)
            return bytes(f)
        # an answer to nothing we asked
        return mt.command_frame(mt.SYS, "ping", {"capabilities": 0x179}, mt.SRSP)

    def version(self, typ=mt.SRSP):
        r = self.rng
        some = lambda *a: r.choice(a + (r.randrange(256),))
        return mt.command_frame(mt.SYS, "version", dict(
            transportrev=some(2, 2, 0, 1), product=some(0, 1, 2, 3, 255), majorrel=some(2, 2, 0, 1, 3), minorrel=some(6, 7, 0),
            maintrel=some(0, 1, 3), revision=r.choice((0, 20190608, 20210708, 0xFFFFFFFF))), mt.SRSP)

    def opened(self, port):
        super().opened(port)
        # the adapter may say something before it is asked
        while self.rng.random() < self.noise * 0.5:
            t, g = self.rng.choice((0.0, 0.001, 0.3, 0.999, 1.0)), self.gen
            self.ctx.count("noise_before_query")
            self.loop.call_later(t, lambda: self.gen == g and self.port is not None and self.port.feed(self.junk()))

    def on_frame(self, typ, sub, cid, data):
        now = self.world.now()
        if (typ, sub, cid) != (mt.SREQ, 1, 2):
            self.wire_errors.append("unexpected frame %r" % ((typ, sub, cid, data),))
            return
        self.queries.append(now)
        if self.kind == "silent":
            return
        if self.kind == "wrong":
            f = self.version()
            k = self.rng.randrange(6)
            if k == 0:                       # MT error reply: command unknown
                f = mt.frame(mt.SRSP, 0, 0, bytes([2, 0x21, 2]))
            elif k == 1:
                f = mt.frame(mt.AREQ, 1, 2, f[4:-1])
            elif k == 2:
                f = mt.frame(mt.SRSP, 2, 2, f[4:-1])
            elif k == 3:
                f = mt.command_frame(mt.SYS, "ping", {"capabilities": 0x179}, mt.SRSP)
            elif k == 4:                     # it never ends
                pre = self.junk() if self.rng.random() < self.noise else b""
                self.send(pre + f[:self.rng.randrange(1, len(f))], self.d)
                self.ctx.count("partial")
                return
            else:
                f = f[:-1] + bytes([f[-1] ^ 0xFF])
        else:
            f = self.version()
        pre = self.junk() if self.rng.random() < self.noise else b""
        post = self.junk() if self.rng.random() < self.noise else b""
        due = self.send(pre + f + post, self.d)
        if self.kind == "answers":
            self.answered = due


def make_case(i, rng, ctx):
    kind = rng.choice(("answers", "answers", "answers", "wrong", "silent"))
    x = rng.random()
    d = (rng.choice((0.0, 0.001, 0.3, 0.9)) if x < 0.5 else rng.uniform(0.0, 0.99) if x < 0.7
         else 1.0 + rng.choice((-1, 1)) * rng.choice((0.002, 0.01, 0.05)) if x < 0.85 else rng.uniform(1.02, 9.0))
    fault = rng.choice((None, None, None, "open", "lose", "lose", "lose", "cancel", "cancel", "lose+cancel"))

    def when():
        y = rng.random()
        return (rng.choice((0.0, 0.0, 0.5, 0.99999, 1.0, 1.00001, 1.5, 1.999)) if y < 0.4
                else rng.uniform(0, 1.0) if y < 0.6 else rng.uniform(0, 2.2))

    return {"kind": kind, "delay": d, "fault": fault, "at": when(), "at2": when(), "noise": rng.choice((0.0, 0.0, 0.5, 1.0)),
            "auto": rng.random() < 0.15, "ports": rng.choice((0, 2, 3, 1, 1, 1, 1)), "pair": rng.random() < 0.15, "chunk": rng.random() < 0.3,
            "flow": rng.choice((None, None, "hardware", "software")), "then": rng.choice((0, 1, 2)),
            "via": rng.choice(("api", "app")), "ticks": rng.randrange(12)}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


class Info:
    pass


async def _one(world, dev, case, rng, ctx, path, config_path):
    """Probe once, judge it."""
    loop = world.loop
    t0 = world.now()
    n0 = len(world.opens)
    mine = lambda: [o for o in world.opens[n0:] if o[1] == path]
    fault, at = case["fault"], case["at"]
    if fault == "open":
        e = rng.choice(OPEN_ERRORS)
        world.open_error[path] = lambda n: e()
        ctx.count("open_failed")
    cfg = {"path": config_path}
    if case["flow"]:
        cfg["flow_control"] = case["flow"]
    probe = API.probe if case["via"] == "api" else ControllerApplication.probe
    task = asyncio.ensure_future(probe(cfg))
    lost_at = [None]

    def lose():
        if dev.port is not None and not task.done():
            dev.port.lose()
            lost_at[0] = world.now()

    if fault in ("lose", "lose+cancel"):
        loop.call_at(1000.0 + t0 + at, lose)
    if fault in ("cancel", "lose+cancel"):
        at_c = at if fault == "cancel" else max(at, case["at2"])
        if at_c == 0.0:
            # in the middle of opening
            for _ in range(case["ticks"]):
                await asyncio.sleep(0)
            task.cancel()
        else:
            loop.call_at(1000.0 + t0 + at_c, task.cancel)
    await asyncio.wait([task], timeout=30)
    took = world.now() - t0
    what = "kind %s delay %.4f fault %s" % (case["kind"], case["delay"], fault)
    if not task.done():
        raise Violation("the probe did not end within 30 s (%s)" % what)
    if task.cancelled():
        if fault not in ("cancel", "lose+cancel"):
            raise Violation("the probe was cancelled by nobody (%s)" % what)
        ctx.count("cancelled")
        if fault == "lose+cancel":
            ctx.count("lost_cancelled")
        res = "cancelled"
    elif task.exception() is not None:
        raise Violation("the probe raised %r (%s)" % (task.exception(), what), when=took)
    else:
        res = task.result()
    if took > 2.05:
        raise Violation("the probe took %.3f s (%s)" % (took, what))
    # answered within the time and before anything failed?
    end = t0 + 2.0
    yes = (dev.answered is not None and dev.answered <= end - 0.0015 and
           (lost_at[0] is None or dev.answered <= lost_at[0] - 0.0005))
    no = (dev.answered is None or dev.answered >= end + 0.0015 or
          (lost_at[0] is not None and dev.answered >= lost_at[0] + 0.0005))
    if res != "cancelled":
        if res is not True and res is not False:
            raise Violation("the probe returned %r" % (res,))
        if res and not yes:
            if no:
                raise Violation("the probe reported an adapter that did not answer in time (%s)" % what,
                                answered=dev.answered, lost=lost_at[0])
        if not res and yes:
            raise Violation("the probe reported no adapter although it answered %.4f s after the start (%s)"
                            % (dev.answered - t0, what))
        ctx.count("true" if res else "false")
        if not res:
            ctx.count({"silent": "silent", "wrong": "wrong", "answers": "late"}[case["kind"]] if not fault else "failed")
        if case["kind"] == "answers" and abs(case["delay"] - 1.0) < 0.06 and not fault:
            ctx.count("near_limit")
    if lost_at[0] is not None:
        ctx.count("lost")
        if not dev.queries:
            ctx.count("lost_before_query")
    if case["auto"]:
        ctx.count("auto")
    await asyncio.sleep(0.02)
    o = mine()
    if not o and res == "cancelled":
        ctx.count("cancelled_before_open")
        return res
    if not o:
        raise Violation("the probe did not open the port (%s)" % what)
    if any(x[3] is not None and x[3].is_open for x in o):
        raise Violation("the port is still open after the probe, which ended with %r at %.4f (%s)" % (res, took, what))
    ctx.sig(case["kind"], round(case["delay"], 4), fault, round(at, 4), case["auto"], case["flow"], case["ticks"])
    ctx.sample({"behaviour": what, "result": res, "took": round(took, 4), "bytes": (o[0][3].tx.hex() if o[0][3] else None)})
    world.open_error.pop(path, None)
    return res


async def _run(loop, case, rng, ctx):
    world = port.World(loop)
    devs = []
    for k in range(2):
        d = Dev(world, rng, ctx, case["kind"], case["delay"], case["noise"])
        if case["chunk"]:
            d.chunker = lambda data: [rng.choice((1, 2, 7)) for _ in range(6)]
        world.attach(PATHS[k], d)
        devs.append(d)
    if case["auto"]:
        from serial.tools.list_ports_common import ListPortInfo
        for path in PATHS[:case["ports"]]:
            p = ListPortInfo(path)
            p.vid, p.pid, p.serial_number = rng.choice(((0x0451, 0x16A8), (0x1A86, 0x7523))) + ("L1",)
            p.apply_usb_info()
            world.comports.append(p)
        if case["ports"] != 1:
            # no adapter, or no telling which one
            ctx.count("auto_not_one")
            probe = API.probe if case["via"] == "api" else ControllerApplication.probe
            r = await rig.outcome(probe({"path": "auto"}), 5)
            if r[0] != "ok" or r[1] is not False:
                raise Violation("a probe of 'auto' with %d adapters present ended with %s %r" % (
                    case["ports"], r[0], r[1]))
            if world.opens:
                raise Violation("a probe of 'auto' with %d adapters present opened %s" % (
                    case["ports"], world.opens[0][1]))
            ctx.count("false")
            case = dict(case, auto=False)
            world.comports = []
    jobs = [_one(world, devs[0], case, rng, ctx, PATHS[0], "auto" if case["auto"] else PATHS[0])]
    if case["pair"]:
        ctx.count("pair")
        other = dict(case, auto=False, fault=rng.choice((None, "lose", "cancel", "open")), at=rng.uniform(0, 2))
        jobs.append(_one(world, devs[1], other, rng, ctx, PATHS[1], PATHS[1]))
    for r in await asyncio.gather(*jobs, return_exceptions=True):
        if isinstance(r, BaseException):
            raise r
    for k in range(case["then"]):
        # the port is free for the next user
        d = Dev(world, rng, ctx, "answers", 0.01, 0.0)
        world.attach(PATHS[0], d)
        if k == 0:
            r = await API.probe({"path": PATHS[0]})
            if r is not True:
                raise Violation("a second probe of a good adapter reported %r" % (r,))
            await asyncio.sleep(0.02)
        else:
            api = await API.new(rig.RecorderApp(loop), rig.device_config(PATHS[0]))
            v = await api.version()
            api.close()
            await asyncio.sleep(0.02)
        ctx.count("then_used")
    n = len(world.opens)
    await asyncio.sleep(120)
    if world.open_ports:
        raise Violation("ports left open: %r" % [p.url for p in world.open_ports])
    if len(world.opens) != n:
        raise Violation("a port was opened after the probe had ended")
    for d in devs:
        rig.check_wire(d)
    rig.check_escaped(loop)
