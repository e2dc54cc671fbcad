"""C04: values that do not fit are refused; short payloads never yield a message."""
import asyncio

from lib import gen, mtspec as mt, port, rig, vloop, znp
from lib.adapter import Echo
from lib.core import Violation

PROP = "C04"
CASES = {"quick": 2700, "thorough": 15000}
RULE = ("One third of the cases: 12 commands with one parameter value that does not fit. One third: a response or "
        "notification cut short or announcing more than it holds, with the command waiting. One third: cut join "
        "announcements, data messages and ZDO replies against the full application. Distinct = distinct (command, "
        "bad value or cut); non-trivial = all.")
REQUIRED = {"bad_values": 1000, "unanswered_commands": 500, "truncations": 1500, "app_truncations": 500, "announced_more": 10000, "completed_after_truncation": 100}
ASSUMPTIONS = ["the width of buffers is given by their length parameter, which the caller chooses"]


def make_case(i, rng, ctx):
    kind = ("value", "short", "app")[i % 3]
    j = i // 3
    if kind == "value":
        out = []
        k = 0
        while len(out) < 12 and k < 100:
            c = gen.CALLS[(j * 12 + k) % len(gen.CALLS)]
            k += 1
            if rng.random() < 0.25:
                c = rng.choice(gen.PLAIN)
                if rng.random() < 0.3:
                    c = mt.BY_NAME[(mt.ZDO, "mgmtLqiRsp")]
            p = gen.payload(c.req, rng, 100, lengths="any")
            b = gen.break_value(c, p, rng)
            if b:
                out.append((c, b[0], b[1]))
        return {"kind": kind, "show": [(repr(c), p, w) for c, p, w in out], "_v": out}
    if kind == "short":
        out = []
        for k in range(4):
            c = gen.CALLS[(j * 4 + k) % len(gen.CALLS)]
            a = gen.AREQS[(j * 4 + k) % len(gen.AREQS)]
            out.append((c, gen.payload(c.req, rng, 60), gen.response_for(c, rng, rng.choice((20, 60))),
                        a, gen.payload(a.req, rng, rng.choice((20, 60)))))
        return {"kind": kind, "show": [(repr(c), r, repr(a), q) for c, p, r, a, q in out], "_s": out}
    return {"kind": kind, "cuts": rng.random()}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: {"value": _value, "short": _short, "app": _app}[case["kind"]](loop, case, rng, ctx))


async def _value(loop, case, rng, ctx):
    world, ad, api, rec = await rig.api_rig(
        loop, lambda w: Echo(w, lambda typ, c, d, n: typ == mt.SREQ and [(0, gen.srsp(c, gen.response_for(c, rng, 60)))]))
    for c, p, what in case["_v"]:
        n = len(ad.port.tx)
        kind, val = await rig.outcome(gen.call(api, c, p), 60)
        await asyncio.sleep(0.01)
        if len(ad.port.tx) != n:
            raise Violation("%r with a value that does not fit (%s) reached the wire: %s" % (
                c, what, bytes(ad.port.tx[n:]).hex()), payload=p)
        if kind != "error":
            raise Violation("%r with a value that does not fit (%s) was not refused: %s" % (c, what, kind), payload=p)
        ctx.count("bad_values")
        ctx.count("unanswered_commands", c.type == mt.AREQ)
        ctx.sig(repr(c), what, repr(p))
    # and the driver still works
    c = mt.BY_NAME[(mt.SYS, "version")]
    kind, val = await rig.outcome(gen.call(api, c, {}), 60)
    if kind != "ok":
        raise Violation("after refused values a version request failed: %r" % (val,))
    ctx.sample(case["show"][:2])
    api.close()
    await asyncio.sleep(0)


def _cuts(body, params, rng, most=14):
    """Lengths at which body ends before its parameters do."""
    out = []
    for k in range(len(body)):
        try:
            mt.decode(params, body[:k])
        except mt.Short:
            out.append(k)
    if len(out) > most:
        out = sorted(set(out[:4] + out[-4:] + rng.sample(out, most - 8)))
    return out


def _short_bodies(params, values, rng, most=14):
    """(what, body) whose parameters go on after its end: cut ones, and ones that announce more than they hold."""
    body = mt.encode(params, values)
    out = [("cut to %d of %d bytes" % (k, len(body)), body[:k]) for k in _cuts(body, params, rng, most)]
    for i, (n, t) in enumerate(params[:-1]):
        if t not in mt.INTS or params[i + 1][1] not in gen.VAR:
            continue
        top = (1 << 8 * mt.INTS[t]) - 1
        more = {values[n] + 1, values[n] + rng.randrange(1, 256), values[n] + 256 * rng.randrange(1, 256),
                rng.randrange(top + 1), top}
        for v in sorted(x for x in more if x <= top):
            forged = mt.encode(params[:i], values) + mt.encode_value(t, v) + mt.encode(params[i + 1:], values)
            try:
                mt.decode(params, forged)
            except mt.Short:
                out.append(("announcing %s=%d, holding %d" % (n, v, values[n]), forged))
    return out


async def _short(loop, case, rng, ctx):
    world, ad, api, rec = await rig.api_rig(loop, lambda w: Echo(w, lambda *a: None))
    for c, p, r, a, q in case["_s"]:
        body = mt.encode(c.rsp, r)
        fut = asyncio.ensure_future(gen.call(api, c, p))
        await asyncio.sleep(0.01)
        del rec.got[:]
        for what, short in _short_bodies(c.rsp, r, rng):
            ad.send_now(mt.frame(mt.SRSP, c.subsys, c.id, short))
            await asyncio.sleep(0.005)
            if rec.got:
                raise Violation("response to %r %s produced a message: %r" % (c, what, rec.got))
            if fut.done():
                raise Violation("response to %r %s ended the request: %r" % (c, what, await rig.outcome(fut)))
            ctx.count("truncations")
            ctx.count("announced_more", what.startswith("ann"))
            ctx.sig(repr(c), short)
        ad.send_now(mt.frame(mt.SRSP, c.subsys, c.id, body))
        kind, val = await rig.outcome(fut, 0.1)
        if kind != "ok" or rig.norm_payload(val.payload) != r:
            raise Violation("%r: after cut responses the complete one was not returned: %s %r" % (c, kind, val))
        ctx.count("completed_after_truncation")
        del rec.got[:]
        for what, short in _short_bodies(a.req, q, rng):
            ad.send_now(mt.frame(mt.AREQ, a.subsys, a.id, short))
            await asyncio.sleep(0.005)
            if rec.got:
                raise Violation("%r %s produced a message: %r" % (a, what, rec.got))
            ctx.count("truncations")
            ctx.count("announced_more", what.startswith("ann"))
            ctx.sig(repr(a), short)
    ctx.sample(case["show"][:1])
    api.close()
    await asyncio.sleep(0)


async def _app(loop, case, rng, ctx):
    """Cut announcements, messages and replies against the application."""
    world, z, app = await rig.app_rig(loop, rng, product=rng.randrange(3))
    d1 = rig.known_device(app, z, rng, 0x1234)
    d2 = rig.known_device(app, z, rng, 0x4321)
    d1.silent = d2.silent = True
    snap = lambda: (sorted((bytes(k), int(v.nwk), v.lqi, id(v)) for k, v in app.devices.items()), list(app.messages))
    # a request that waits for a reply, so that a cut one has something to complete
    dev = app.devices[[k for k in app.devices if bytes(k) == d1.ieee][0]]
    await app.request(dev, 0, 5, 0, 0, 7, bytes([7]) + d1.nwk.to_bytes(2, "little"))
    before = snap()
    frames = []
    for _ in range(2):
        new = gen.rbytes(rng, 8)
        frames.append((mt.ZDO, "endDeviceAnnceInd", dict(srcaddr=d2.nwk, nwkaddr=rng.randrange(1, 0xFFF0),
                                                         ieeeaddr=rng.choice((d2.ieee, d1.ieee, new)), capabilities=0x80)))
        data = gen.rbytes(rng, rng.choice((3, 10, 60)))
        frames.append((mt.AF, "incomingMsg", dict(
            groupid=0, clusterid=6, srcaddr=d1.nwk, srcendpoint=1, dstendpoint=1, wasbroadcast=0,
            linkquality=rng.randrange(256), securityuse=0, timestamp=0, transseqnumber=1, len=len(data), data=data)))
        frames.append((mt.AF, "incomingMsgExt", dict(
            groupid=0, clusterid=6, srcaddrmode=3, srcaddr=d1.ieee, srcendpoint=1, srcpanid=0, dstendpoint=1,
            wasbroadcast=0, linkquality=rng.randrange(256), securityuse=0, timestamp=0, transseqnumber=1,
            len=len(data), data=data)))
    eps = list(gen.rbytes(rng, rng.choice((0, 1, 5, 20))))
    frames.append((mt.ZDO, "activeEpRsp", dict(srcaddr=d1.nwk, status=0, nwkaddr=d1.nwk, activeepcount=len(eps),
                                               activeeplist=eps)))
    for sub, name, p in frames:
        c = mt.BY_NAME[(sub, name)]
        for what, short in _short_bodies(c.req, p, rng, 12):
            z.send_now(mt.frame(mt.AREQ, sub, c.id, short))
            await asyncio.sleep(0.002)
            if snap() != before:
                raise Violation("%s %s changed the application: %r -> %r" % (name, what, before, snap()))
            ctx.count("app_truncations")
            ctx.count("announced_more", what.startswith("ann"))
            ctx.sig(name, short)
    # the complete reply still reaches its request
    z.send_now(mt.command_frame(mt.ZDO, "activeEpRsp", frames[-1][2], mt.AREQ))
    await asyncio.sleep(0.01)
    if len(app.messages) != 1 or app.messages[0][5][:1] != b"\x07":
        raise Violation("after cut replies the complete one was not delivered: %r" % (app.messages,))
    await app.shutdown()
