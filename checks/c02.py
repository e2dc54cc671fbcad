"""C02: the bytes written are well-formed frames of the commands issued, in order."""
import asyncio

from lib import gen, mtspec as mt, rig, vloop
from lib.adapter import Echo
from lib.core import Violation

PROP = "C02"
CASES = {"quick": 2500, "thorough": 20000}
RULE = ("A case is 1-8 tasks issuing 1-6 random commands each (any of the callable commands, reset, other AREQs) over "
        "a port that accepts writes in random pieces or blocks, for up to a minute; some commands cannot be encoded (value out of range, "
        "parameter missing, wrong type, payload over 255 bytes), some are cancelled; some tasks issue theirs without letting anything run in between. Distinct = distinct byte log; "
        "non-trivial = at least one frame written.")
REQUIRED = {"frames_checked": 2000, "unencodable": 300, "partial_writes": 500, "cancelled": 20, "jammed": 500, "in_bursts": 2000}
ASSUMPTIONS = ["payloads of 251..255 bytes are not exercised (longer than the adapter accepts, not refused)"]

HOST_AREQ = [(mt.SYS, "resetReq"), (mt.SAPI, "systemReset"), (mt.ZDO, "autoFindDestination")]


def _command(rng, areq=0.08):
    if rng.random() < areq:
        c = mt.BY_NAME[rng.choice(HOST_AREQ)]
    else:
        c = rng.choice(gen.CALLS)
    p = gen.payload(c.req, rng, rng.choice((40, 120, 250)), lengths="any")
    k = rng.random()
    if k < 0.75 or not c.req:
        return c, p, None
    if k < 0.83:
        q = dict(p)
        del q[rng.choice(c.req)[0]]
        return c, q, "missing"
    if k < 0.88:
        q = dict(p)
        q[rng.choice(c.req)[0]] = rng.choice((None, 1.5, object()))
        return c, q, "type"
    if k < 0.92 and any(t == "BUFFER" for _, t in c.req):
        q = dict(p)
        for n, t in c.req:
            if t == "BUFFER":
                q[n] = gen.rbytes(rng, rng.choice((256, 300, 1000)))
        return c, q, "too long"
    b = gen.break_value(c, p, rng)
    if b is None:
        return c, p, None
    return c, b[0], b[1]


def make_case(i, rng, ctx):
    tasks = []
    crowd = i % 80 == 1            # hundreds of tasks at once
    for _ in range(rng.choice((150, 600)) if crowd else rng.choice((1, 2, 3, 5, 8))):
        cmds = []
        burst = rng.random() < 0.15        # one after the other with nothing in between
        for _ in range(1 if crowd else rng.randint(1, 6)):
            c, p, bad = _command(rng, 0.5 if burst else 0.08)
            if burst:
                cmds.append((c, p, bad, "burst", None))
                continue
            cancel = rng.choice((0.0, 0.001, 0.01, 0.3)) if rng.random() < 0.06 else None
            cmds.append((c, p, bad, rng.choice((0, 0, 0.001, 0.05)), cancel))
        tasks.append(cmds)
    return {"tasks": [[(repr(c), p, bad, d, x) for c, p, bad, d, x in t] for t in tasks],
            "t": tasks, "writes": rng.choice(("whole", "bytes", "random", "blocky", "jam"))}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


async def _run(loop, case, rng, ctx):
    def script(typ, c, data, n):
        if c is None:
            return
        if (c.subsys, c.name) in ((mt.SYS, "resetReq"), (mt.SAPI, "systemReset")):
            return [(0.02, mt.command_frame(mt.SYS, "resetInd", dict(
                reason=0, transportrev=2, productid=0, majorrel=2, minorrel=6, hwrev=0)))]
        if typ == mt.SREQ:
            return [(rng.choice((0, 0.001, 0.02)), gen.srsp(c, gen.response_for(c, rng, 60)))]

    world, ad, api, rec = await rig.api_rig(loop, lambda w: Echo(w, script))
    port = ad.port
    mode = case["writes"]
    if mode == "bytes":
        port.write_limit = lambda n: 1
    elif mode == "random":
        port.write_limit = lambda n: rng.randint(0, max(1, n))
    elif mode == "blocky":
        port.write_limit = lambda n: rng.randint(0, 3)
        def toggle():
            if port.is_open:
                port.write_blocked = not port.write_blocked
                loop.call_later(0.003, toggle)
        loop.call_later(0.001, toggle)

    elif mode == "jam":
        # nothing is accepted for longer than a command's limit
        def jam():
            if port.is_open:
                port.write_blocked = not port.write_blocked
                loop.call_later(rng.uniform(5, 60) if port.write_blocked else rng.uniform(0, 2), jam)
        loop.call_later(rng.choice((0.001, 0.5)), jam)

    base = len(port.tx)
    issued = []      # [frame or None, optional?, description]

    async def burst(cmds):
        for c, p, bad, _, _ in cmds:
            want = None
            if bad is None:
                want = mt.frame(c.type, c.subsys, c.id, mt.encode(c.req, p))
                p = gen.lively(p, c.req, rng)
            issued.append([want, False, "%r %s" % (c, bad or ""), None])
            try:
                await gen.call(api, c, p)
            except Exception as e:
                if bad is None and not (mode == "jam" and isinstance(e, asyncio.TimeoutError)):
                    raise Violation("%r could not be sent or answered: %r" % (c, e), payload=p)
                if bad is not None and isinstance(e, asyncio.TimeoutError):
                    raise Violation("%r that cannot be encoded (%s) ended with %r" % (c, bad, e), payload=p)
            else:
                if bad is not None:
                    raise Violation("%r with a parameter that cannot be encoded (%s) was accepted" % (c, bad),
                                    payload=p)
            ctx.count("in_bursts")

    async def task(cmds):
        if cmds[0][3] == "burst":
            return await burst(cmds)
        for c, p, bad, d, cancel in cmds:
            if d:
                await asyncio.sleep(d)
            want = None
            if bad is None:
                want = mt.frame(c.type, c.subsys, c.id, mt.encode(c.req, p))
                p = gen.lively(p, c.req, rng)
            rec_ = [want, False, "%r %s" % (c, bad or ""), None]

            async def body():
                # recorded at the moment the driver is entered
                issued.append(rec_)
                return await gen.call(api, c, p)
            fut = asyncio.ensure_future(body())
            if cancel is not None:
                await asyncio.sleep(cancel)
                if not fut.done():
                    fut.cancel()
                    rec_[1] = True
                    ctx.count("cancelled")
            kind, val = await rig.outcome(fut)
            rec_[3] = kind
            if bad is not None:
                ctx.count("unencodable")
                if kind == "ok":
                    raise Violation("%r with a parameter that cannot be encoded (%s) was accepted" % (c, bad),
                                    payload=p)
                if kind == "error" and isinstance(val, (asyncio.TimeoutError, vloop.Deadlock)):
                    raise Violation("%r that cannot be encoded (%s) ended with %r" % (c, bad, val), payload=p)
            elif kind == "error" and mode == "jam" and isinstance(val, asyncio.TimeoutError):
                ctx.count("jammed")
            elif kind == "error" and cancel is None:
                raise Violation("%r could not be sent or answered: %r" % (c, val), payload=p)

    await asyncio.gather(*[task(t) for t in case["t"]])
    port.write_limit, port.write_blocked = None, False
    await asyncio.sleep(0.1)
    rig.check_wire(ad)
    rig.check_escaped(loop)
    data = bytes(port.tx)
    if data[:1] != b"\xef" or base != 1:
        raise Violation("first write after connecting is %r" % data[:base])
    frames = []
    pos = 1
    while pos < len(data):
        if data[pos] != mt.SOF or pos + 2 > len(data) or pos + 5 + data[pos + 1] > len(data):
            raise Violation("incomplete frame at the end of the output: %s" % data[pos:].hex())
        frames.append(data[pos:pos + 5 + data[pos + 1]])
        pos += 5 + data[pos + 1]
    want = [(w, opt, what) for w, opt, what, _ in issued if w is not None]
    if not _explains(want, frames):
        k = 0
        mand = [w for w in want]
        while k < min(len(frames), len(mand)) and frames[k] == mand[k][0]:
            k += 1
        raise Violation("frames written do not match the commands issued from position %d: wrote %s, issued %s (%s)" % (
            k, frames[k].hex() if k < len(frames) else None, mand[k][0].hex() if k < len(mand) else None,
            mand[k][2] if k < len(mand) else ""))
    ctx.count("frames_checked", len(frames))
    ctx.count("partial_writes", sum(1 for _ in port.tx_log) - len(frames) if mode != "whole" else 0)
    if frames:
        ctx.sig(data)
    ctx.sample({"tasks": len(case["tasks"]), "writes": mode, "bytes": data[:60].hex()})
    api.close()
    await asyncio.sleep(0)


def _explains(want, frames):
    """Is frames = want with some optional (cancelled) entries left out?"""
    reach = {0}
    for w, opt, _ in want:
        nxt = set()
        for k in reach:
            if k < len(frames) and frames[k] == w:
                nxt.add(k + 1)
            if opt:
                nxt.add(k)
        reach = nxt
        if not reach:
            return False
    return len(frames) in reach
