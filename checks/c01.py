"""C01 receive framing: random streams, random cuts, two observation points."""
import asyncio

from lib import mtspec as mt, port, rig, vloop
from lib.adapter import Adapter
from lib.core import Violation
from zigpy_cc import uart

PROP = "C01"
CASES = {"quick": 5400, "thorough": 40000}
RULE = ("A case is a random sequence of up to 25 frames (lengths 0,1,2,..,250, payloads rich in 0xFE), optional noise "
        "without 0xFE between them and optional corrupted-checksum frames, cut into reads at random, bytewise or not "
        "at all, up to an hour between two reads; fed to the gateway (half) or through port, transport, gateway and api (half). Distinct = distinct "
        "(stream, cut); non-trivial = contains at least one valid frame.")
REQUIRED = {"frames_delivered": 2000, "zero_length_frames": 100, "corrupt_frames": 100, "noise_runs": 100,
            "max_length_frames": 20, "full_stack_cases": 100, "pauses": 2000, "prompt_checks": 1000}
ASSUMPTIONS = ["noise never contains 0xFE: a stray start marker is indistinguishable from a frame start",
               "corruption leaves the length byte intact"]

# notifications every payload of which the driver can decode, for the full stack
AREQS = [(mt.SAPI, "systemReset"), (mt.UTIL, "syncReq"), (mt.ZDO, "stateChangeInd"), (mt.ZDO, "permitJoinInd"),
         (mt.SYS, "resetInd"), (mt.AF, "dataConfirm"), (mt.AF, "incomingMsg"), (mt.ZDO, "activeEpRsp"),
         (mt.ZDO, "endDeviceAnnceInd"), (mt.DEBUG, "msg"), (mt.AF, "reflectError"), (mt.ZDO, "leaveInd")]


# bytes that something between the line and the parser may take for more than bytes
ODD = (0x00, 0x00, 0x09, 0x0A, 0x0D, 0x11, 0x13, 0x20, 0x1A, 0x04, 0x03, 0x7F, 0xEF, 0xFE, 0xFF)


def _odd_end(rng, make):
    """A frame whose last byte is one of these."""
    want = (rng.choice(ODD),) if rng.random() < 0.3 else ODD
    for _ in range(100):
        x = make()
        if x[1][-1] in want:
            break
    return x


def _data(rng, n):
    k = rng.random()
    if k < 0.3:
        return bytes(rng.choice((0xFE, 0xFE, 0, 1, 0xFF)) for _ in range(n))
    if k < 0.4:
        return bytes(rng.choice(ODD) for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def _other_checksum(f, rng):
    """Give frame f the checksum of some other rule than the right one."""
    right = f[-1]
    rules = [right ^ b for b in (f[0], f[1], f[2], f[3], f[-2], f[4], 0xFF, f[1] ^ f[2] ^ f[3], f[2] ^ f[3])]
    rules += [0, 0xFF, f[1], sum(f[1:-1]) & 0xFF, sum(f[:-1]) & 0xFF, -sum(f[1:-1]) & 0xFF, (right + 1) & 0xFF,
              (right - 1) & 0xFF, right & 0x7F, right | 0x80, right >> 1, right << 1 & 0xFF, right >> 4 | (right << 4 & 0xF0)]
    rules = [x for x in rules if x != right]
    f[-1] = rng.choice(rules)


def _areq(rng):
    sub, name = rng.choice(AREQS)
    c = mt.BY_NAME[(sub, name)]
    p = {}
    prev = None
    for i, (n, t) in enumerate(c.req):
        nxt = c.req[i + 1][1] if i + 1 < len(c.req) else ""
        if t in mt.INTS:
            v = rng.randrange(1 << (8 * mt.INTS[t]))
            if nxt in ("BUFFER", "LIST_UINT8"):
                room = 250 - 20
                v = rng.choice((0, 1, 2, 80, room, rng.randrange(room)))
            elif n.endswith("addrmode"):
                v = rng.choice((0, 1, 2, 3, 15))
        elif t == "IEEEADDR":
            v = _data(rng, 8)
        elif t == "BUFFER":
            v = _data(rng, prev)
        elif t == "LIST_UINT8":
            v = list(_data(rng, prev))
        p[n] = v
        prev = v
    return sub, name, p


def make_case(i, rng, ctx):
    full = i % 2 == 1
    items = []
    for _ in range(rng.choice((1, 2, 3, 5, 8, 25))):
        k = rng.random()
        if items and items[-1][0] == "frame" and rng.random() < 0.1:
            items.append(items[-1])        # the same frame again is another frame
        elif k < 0.12:
            noise = bytes(b for b in _data(rng, rng.choice((1, 2, 3, 5, 6, 20))) if b != 0xFE) or b"\x00"
            items.append(("noise", noise))
        elif k < 0.26:
            f = bytearray(mt.frame(rng.randrange(4), rng.choice(mt.SUBSYSTEMS), rng.randrange(256),
                                   _data(rng, rng.choice((0, 1, 2, 3, 20, 127, 128, 200, 250)))))
            if rng.random() < 0.4:
                _other_checksum(f, rng)
            else:
                pos = rng.choice([2, 3, len(f) - 1] + list(range(4, len(f))))
                f[pos] ^= rng.choice([1 << rng.randrange(8), rng.randrange(1, 256)])
            items.append(("corrupt", bytes(f)))
        elif full:
            def make():
                sub, name, p = _areq(rng)
                return ("frame", mt.command_frame(sub, name, p, mt.AREQ), (2, sub, name, p))
            items.append(_odd_end(rng, make) if rng.random() < 0.25 else make())
        else:
            typ, sub, cid = rng.randrange(4), rng.choice(mt.SUBSYSTEMS), rng.randrange(256)
            n = rng.choice((0, 0, 1, 2, 3, 4, 5, 20, 127, 128, 249, 250, rng.randrange(251)))
            d = _data(rng, n)
            if n and rng.random() < 0.3:
                f = mt.frame(typ, sub, cid, d)
                d = d[:-1] + bytes([d[-1] ^ f[-1] ^ rng.choice(ODD)])
            items.append(("frame", mt.frame(typ, sub, cid, d), (typ, sub, cid, d)))
    stream = b"".join(x[1] for x in items)
    mode = rng.choice(("whole", "bytes", "frames", "random", "random"))
    if mode == "whole":
        cuts = [len(stream)]
    elif mode == "bytes":
        cuts = [1] * len(stream)
    elif mode == "frames":
        cuts = [len(x[1]) for x in items]
    else:
        cuts, left = [], len(stream)
        while left:
            k = min(left, rng.choice((1, 2, 3, 4, 5, 6, 7, 30, 200)))
            cuts.append(k)
            left -= k
    return {"full": full, "items": items, "cuts": cuts, "pauses": rng.choice((0, 0, 0.05, 0.5))}


def _ends(items):
    """Stream offset at which each valid frame is complete."""
    out, pos = [], 0
    for it in items:
        pos += len(it[1])
        if it[0] == "frame":
            out.append((pos, it[2]))
    return out


class GwApi:
    def __init__(self):
        self.got = []

    def data_received(self, frame):
        self.got.append((int(frame.command_type), int(frame.subsystem), int(frame.command_id), bytes(frame.data)))

    def connection_lost(self):
        pass


def run_case(case, rng, ctx):
    ctx.sample({"cuts": case["cuts"][:12], "stream": b"".join(x[1] for x in case["items"])[:60].hex()})
    ends = _ends(case["items"])
    for it in case["items"]:
        if it[0] == "noise":
            ctx.count("noise_runs")
        elif it[0] == "corrupt":
            ctx.count("corrupt_frames")
        else:
            n = len(it[1]) - 5
            if n == 0:
                ctx.count("zero_length_frames")
            if n >= 240:
                ctx.count("max_length_frames")
    if ends:
        ctx.sig(b"".join(x[1] for x in case["items"]), tuple(case["cuts"]))
    if case["full"]:
        vloop.run(lambda loop: _full(loop, case, rng, ends, ctx))
        ctx.count("full_stack_cases")
    else:
        _gateway(case, ends, ctx)


def _compare(got, want, pos, cuts):
    if got != want:
        n = min(len(got), len(want))
        k = next((j for j in range(n) if got[j] != want[j]), n)
        raise Violation("after %d bytes: %d frames delivered, %d complete; first difference at frame %d: got %r, "
                        "expected %r" % (pos, len(got), len(want), k, got[k:k + 1], want[k:k + 1]))


def _gateway(case, ends, ctx):
    api = GwApi()
    gw = uart.Gateway(api)
    stream = b"".join(x[1] for x in case["items"])
    pos = 0
    for k in case["cuts"]:
        try:
            gw.data_received(stream[pos:pos + k])
        except Exception as e:
            raise Violation("reading well-formed frames raised %r" % e)
        pos += k
        _compare(api.got, [w for e, w in ends if e <= pos], pos, case["cuts"])
        ctx.count("prompt_checks")
    ctx.count("frames_delivered", len(api.got))


async def _full(loop, case, rng, ends, ctx):
    world, ad, api, rec = await rig.api_rig(loop, Adapter)
    stream = b"".join(x[1] for x in case["items"])
    pos = 0
    # a read returns at most 1024 bytes anyway; smaller cuts are forced here
    for k in case["cuts"]:
        if case["pauses"] and rng.random() < case["pauses"]:
            await asyncio.sleep(rng.choice((0.3, 1.5, 7, 70, 4000)))
            ctx.count("pauses", 0 < pos < len(stream))
        ad.port.feed(stream[pos:pos + k], [k])
        pos += k
        await asyncio.sleep(0)
        await asyncio.sleep(0.01)
        got = [(t, s, c, p) for _, t, s, c, p in rec.got]
        want = [(a, b, c, _n(p)) for e, (a, b, c, p) in ends if e <= pos]
        _compare(got, want, pos, case["cuts"])
        ctx.count("prompt_checks")
    ctx.count("frames_delivered", len(rec.got))
    api.close()
    await asyncio.sleep(0)


def _n(p):
    return {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}
