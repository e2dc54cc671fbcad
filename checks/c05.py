"""C05: frames that cannot be interpreted are dropped on their own."""
import asyncio

from lib import gen, mtspec as mt, rig, vloop
from lib.adapter import Echo
from lib.core import Violation

PROP = "C05"
CASES = {"quick": 3200, "thorough": 15000}
RULE = ("A case is up to 30 frames - good notifications and responses mixed with uninterpretable ones of twelve kinds - "
        "packed into reads at random, while commands are pending and some handlers above raise; half against the api, half against the full "
        "application. Distinct = distinct stream; non-trivial = contains a bad frame followed by a good one.")
REQUIRED = {"bad_frames": 1500, "good_frames": 1500, "bad_and_good_in_one_read": 150, "commands_answered": 300,
            "app_messages": 300, "bad_kinds_seen_sum": 500, "handlers_raised": 1000}

UNKNOWN_SUBSYS = [s for s in range(32) if s not in mt.SUBSYSTEMS]
NO_TABLE = [s for s in mt.SUBSYSTEMS if not any(c.subsys == s for c in mt.CMDS)]
UNSUPPORTED = [c for c in mt.CMDS if c.type == mt.AREQ and any(t in mt.NOT_IMPLEMENTED for _, t in c.req)]
ADDRMODE = [c for c in gen.AREQS if any(n.endswith("addrmode") for n, _ in c.req)]
KINDS = ("subsystem", "no-table", "command", "type", "short", "short-response", "no-response", "unsupported",
         "addrmode", "overrun", "checksum", "empty-for-params")


def bad(kind, rng):
    if kind == "subsystem":
        return mt.frame(rng.randrange(4), rng.choice(UNKNOWN_SUBSYS), rng.randrange(256), gen.rbytes(rng, rng.randrange(9)))
    if kind == "no-table":
        if not NO_TABLE:
            return bad("subsystem", rng)
        return mt.frame(rng.randrange(4), rng.choice(NO_TABLE), rng.randrange(256), gen.rbytes(rng, rng.randrange(9)))
    if kind == "command":
        while True:
            s, c = rng.choice(mt.SUBSYSTEMS), rng.randrange(256)
            if (s, c) not in mt.BY_ID:
                return mt.frame(rng.choice((mt.SREQ, mt.AREQ, mt.SRSP)), s, c, gen.rbytes(rng, rng.randrange(20)))
    if kind == "type":
        c = rng.choice(mt.CMDS)
        return mt.frame(rng.randrange(4, 8), c.subsys, c.id, gen.rbytes(rng, rng.randrange(20)))
    if kind in ("short", "empty-for-params"):
        while True:
            c = rng.choice(gen.AREQS)
            b = mt.encode(c.req, gen.payload(c.req, rng, 60))
            k = 0 if kind != "short" else rng.randrange(len(b) + 1)
            try:
                mt.decode(c.req, b[:k])
            except mt.Short:
                return mt.frame(mt.AREQ, c.subsys, c.id, b[:k])
    if kind == "short-response":
        while True:
            c = rng.choice(gen.RSPS)
            b = mt.encode(c.rsp, gen.payload(c.rsp, rng, 60))
            k = rng.randrange(len(b) + 1)
            try:
                mt.decode(c.rsp, b[:k])
            except mt.Short:
                return mt.frame(mt.SRSP, c.subsys, c.id, b[:k])
    if kind == "no-response":
        c = rng.choice([c for c in mt.CMDS if c.rsp is None])
        return mt.frame(mt.SRSP, c.subsys, c.id, gen.rbytes(rng, rng.randrange(30)))
    if kind == "unsupported":
        c = rng.choice(UNSUPPORTED)
        k = next(i for i, (_, t) in enumerate(c.req) if t in mt.NOT_IMPLEMENTED)
        p = gen.payload(c.req[:k], rng, 60)
        p[c.req[k - 1][0]] = 2
        return mt.frame(mt.AREQ, c.subsys, c.id, mt.encode(c.req[:k], p) + gen.rbytes(rng, 40))
    if kind == "addrmode":
        c = rng.choice(ADDRMODE)
        p = gen.payload(c.req, rng, 60)
        p[next(n for n, _ in c.req if n.endswith("addrmode"))] = rng.choice((4, 5, 14, 16, 18, 31, 130, 143, 255))
        return mt.frame(mt.AREQ, c.subsys, c.id, mt.encode(c.req, p))
    if kind == "overrun":
        c = mt.BY_NAME[rng.choice(((mt.AF, "incomingMsg"), (mt.ZDO, "activeEpRsp"), (mt.ZDO, "mgmtLqiRsp")))]
        p = gen.payload(c.req, rng, 100, size=2)
        n = [n for n, t in c.req][-2]
        p[n] = rng.choice((p[n] + 1, 255, 100))
        return mt.frame(mt.AREQ, c.subsys, c.id, mt.encode(c.req, p))
    f = bytearray(mt.frame(mt.AREQ, mt.ZDO, 0xC0, b"\x09"))
    f[-1] ^= rng.randrange(1, 256)
    return bytes(f)


def make_case(i, rng, ctx):
    items = []
    app = i % 2 == 1
    for _ in range(rng.choice((2, 4, 10, 30))):
        if rng.random() < 0.5:
            k = rng.choice(KINDS)
            items.append((k, bad(k, rng)))
        else:
            items.append(("good", None))
    # handlers above that fail
    raising = rng.choice((0, 0, 0.2, 0.7))
    return {"app": app, "kinds": [k for k, _ in items], "_i": items, "raising": raising,
            "pack": rng.choice(("one", "one", "each", "random"))}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: (_app if case["app"] else _api)(loop, case, rng, ctx))


def _packs(items, mode, rng):
    """Groups of consecutive items that arrive in one read."""
    if mode == "one":
        return [items]
    if mode == "each":
        return [[x] for x in items]
    out, i = [], 0
    while i < len(items):
        k = rng.randint(1, 6)
        out.append(items[i:i + k])
        i += k
    return out


def _account(case, packs, ctx):
    for p in packs:
        kinds = [k for k, _ in p]
        ctx.count("bad_frames", sum(1 for k in kinds if k != "good"))
        ctx.count("good_frames", kinds.count("good"))
        if "good" in kinds and any(k != "good" for k in kinds):
            ctx.count("bad_and_good_in_one_read")
    ctx.count("bad_kinds_seen_sum", len(set(case["kinds"]) - {"good"}))
    if len(set(case["kinds"])) > 1:
        ctx.sig(b"".join(b for p in packs for _, b in p))
    ctx.sample(case["kinds"])


def _raises(case, rng, ctx):
    def decide(_):
        if rng.random() < case["raising"]:
            ctx.count("handlers_raised")
            return True
    return decide


async def _api(loop, case, rng, ctx):
    world, ad, api, rec = await rig.api_rig(loop, lambda w: Echo(w, lambda *a: None))
    rec.raise_on = _raises(case, rng, ctx)
    want = []
    items = []
    # at least one command is pending while all this arrives
    c = rng.choice(gen.CALLS)
    fut = asyncio.ensure_future(gen.call(api, c, gen.payload(c.req, rng, 60)))
    await asyncio.sleep(0.01)
    r = gen.response_for(c, rng, 60)
    answer_at = rng.randrange(len(case["_i"]) + 1)
    for k, (kind, b) in enumerate(case["_i"] + [("end", b"")]):
        if k == answer_at:
            items.append(("good", gen.srsp(c, r)))
            want.append((mt.SRSP, c.subsys, c.name, r))
        if kind == "good":
            a = rng.choice(gen.AREQS)
            p = gen.payload(a.req, rng, 60)
            items.append(("good", gen.areq(a, p)))
            want.append((mt.AREQ, a.subsys, a.name, p))
        elif kind != "end":
            if kind == "short-response" and b[2:4] == bytes([0x60 | c.subsys, c.id]):
                continue
            items.append((kind, b))
    packs = _packs(items, case["pack"], rng)
    for p in packs:
        blob = b"".join(b for _, b in p)
        ad.send_now(blob, [len(blob)])
        await asyncio.sleep(rng.choice((0, 0.001)))
    await asyncio.sleep(0.05)
    rig.check_escaped(loop)
    got = [(t, s, n, q) for _, t, s, n, q in rec.got]
    if got != want:
        k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
        raise Violation("%d frames delivered of %d good ones; first difference at %d: got %r, expected %r; stream %s" % (
            len(got), len(want), k, got[k:k + 1], want[k:k + 1], [x for x, _ in items]))
    kind, val = await rig.outcome(fut, 0.1)
    if kind != "ok" or rig.norm_payload(val.payload) != r:
        raise Violation("pending %r did not receive its answer: %s %r" % (c, kind, val))
    ctx.count("commands_answered")
    _account(case, packs, ctx)
    # the connection still works in both directions
    c = mt.BY_NAME[(mt.SYS, "ping")]
    fut = asyncio.ensure_future(gen.call(api, c, {}))
    await asyncio.sleep(0.01)
    ad.send_now(mt.command_frame(mt.SYS, "ping", {"capabilities": 5}))
    kind, val = await rig.outcome(fut, 1)
    if kind != "ok":
        raise Violation("a command after the bad frames was not answered: %s %r" % (kind, val))
    api.close()
    await asyncio.sleep(0)


async def _app(loop, case, rng, ctx):
    world, z, app = await rig.app_rig(loop, rng, product=rng.randrange(3))
    devs = [rig.known_device(app, z, rng, n) for n in (0x1111, 0x2222)]
    app.forward = rng.random() < 0.5
    app.raise_on = _raises(case, rng, ctx)
    want, items = [], []
    for kind, b in case["_i"]:
        if kind == "good":
            d = rng.choice(devs)
            data = gen.rbytes(rng, rng.choice((1, 3, 20)))
            items.append(("good", z.incoming(d, 0x0300, 1, 1, data, lqi=9)))
            want.append((d.ieee, 0x0300, data))
        else:
            items.append((kind, b))
    fut = asyncio.ensure_future(app.request(app.devices[[k for k in app.devices if bytes(k) == devs[0].ieee][0]],
                                            260, 6, 1, 1, 5, b"\x01\x05\x02"))
    packs = _packs(items, case["pack"], rng)
    for p in packs:
        blob = b"".join(b for _, b in p)
        z.send_now(blob, [len(blob)])
        await asyncio.sleep(rng.choice((0, 0.001)))
    await asyncio.sleep(0.1)
    rig.check_escaped(loop)
    got = [(i, c, d) for _, i, c, _, _, d, _, _ in app.messages]
    if got != want:
        raise Violation("application received %d messages of %d; stream %s" % (len(got), len(want), [x for x, _ in items]),
                        got=got, want=want)
    ctx.count("app_messages", len(got))
    kind, val = await rig.outcome(fut, 10)
    if kind != "ok" or val[0] != 0:
        raise Violation("request during bad traffic ended with %s %r" % (kind, val))
    ctx.count("commands_answered")
    _account(case, packs, ctx)
    await app.shutdown()
