"""C13: outgoing application messages go out as addressed; outcomes are truthful."""
import asyncio

import zigpy.types as zt
from lib import rig, vloop, zdo
from lib.core import Violation

PROP = "C13"
CASES = {"quick": 1600, "thorough": 20000}
RULE = ("A case is 5-60 unicast, multicast and broadcast messages with random destinations, endpoints, clusters, "
        "transaction numbers, radii and 0-200 bytes of data from 1-8 tasks; the adapter accepts, rejects with any "
        "status, or does not answer; confirmations come with any status or not at all; some callers give up. Distinct "
        "= distinct message; non-trivial = it reached the adapter.")
REQUIRED = {"unicast": 800, "multicast": 600, "broadcast": 600, "accepted": 1500, "rejected": 500, "unanswered": 200,
            "cancelled": 100, "failed_confirmations": 300, "hops_given": 300, "same_transaction_twice": 100,
            "address_changed": 100, "crowds": 20, "sent_again": 500}


def make_case(i, rng, ctx):
    if rng.random() < 0.03:
        # everyone at once, and an adapter that only just answers in time
        return {"product": 1, "n": 60, "tasks": 60, "slow": False, "crowd": True}
    if i % 80 == 1:
        return {"crowd": False, "product": rng.randrange(3), "n": 700, "tasks": 700, "slow": False}
    return {"crowd": False, "product": rng.randrange(3), "n": rng.choice((5, 20, 60)), "tasks": rng.choice((1, 3, 8)),
            "slow": rng.random() < 0.5}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


async def _run(loop, case, rng, ctx):
    world, z, app = await rig.app_rig(loop, rng, product=case["product"])
    devs = [rig.known_device(app, z, rng, n) for n in rng.sample((1, 0xFF, 0x100, 0x2000, 0x8001, 0xFFF7, rng.randrange(0x3000, 0x8000)), 4)]
    del z.cmd_log[:]
    if case["crowd"]:
        z.delay = lambda cmd: 5.4
        ctx.count("crowds")
    msgs = {}                                    # data -> message
    treat = {}
    count = [0]
    seqs = set()

    def policy(cmd, n):
        p = z.now_payload
        if cmd.name not in ("dataRequest", "dataRequestExt") or p is None:
            return None
        return treat.get(bytes(p["data"]))

    z.policy = policy

    def on_data(p):
        m = msgs.get(bytes(p["data"]))
        if m is None:
            return None
        out = []
        c = m["confirm"]
        if c is not None:
            from lib import mtspec as mt
            out.append((rng.choice((0.0, 0.01, 1.0)) if case["slow"] else 0.0, mt.command_frame(mt.AF, "dataConfirm", dict(
                status=c, endpoint=p["srcendpoint"], transid=p["transid"]), mt.AREQ)))
            if c:
                ctx.count("failed_confirmations")
        return {"status": 0}, out

    z.on_data = on_data

    async def again():
        """Exactly the same message once more."""
        m = rng.choice([m for m in msgs.values() if m["data"] not in treat])
        k = rng.choice((1, 1, 2))
        m["times"] += k
        if rng.random() < 0.3:
            await asyncio.sleep(rng.choice((0.1, 2, 30)))
        for r in await asyncio.gather(*[rig.outcome(m["call"](), 900) for _ in range(k)]):
            if r[0] != "ok" or r[1][0] != 0:
                raise Violation("%s, sent again, ended with %s %r" % (m["how"], r[0], r[1]), message=m)
            ctx.count("sent_again")

    async def one():
        if rng.random() < 0.08 and any(m["data"] not in treat for m in msgs.values()):
            await again()
        n = count[0]
        count[0] += 1
        size = rng.choice((0, 0, 1, 10, 60, 190, rng.randrange(191)))
        data = bytes([zdo.u8(rng)]) + n.to_bytes(2, "little") + bytes(rng.randrange(256) for _ in range(size))
        how = rng.choice(("unicast", "multicast", "broadcast"))
        prof = rng.choice((260, 260, 0xC05E, 0x0109, zdo.u16(rng) or 0xFFFF))
        cl, seq = zdo.u16(rng), rng.choice((0, 255, rng.randrange(256)))
        sep, dep = rng.randrange(1, 256), rng.choice((255, rng.randrange(1, 256)))
        m = {"how": how, "cl": cl, "seq": seq, "sep": sep, "dep": dep, "data": data, "confirm":
             rng.choice((0, 0, None, 0xE9, 0xCD, rng.randrange(256))), "times": 1, "dsts": []}
        if (how, seq) in seqs:
            ctx.count("same_transaction_twice")
        seqs.add((how, seq))
        x = rng.random()
        m["end"] = "ok"
        cancel = None
        if x < 0.2:
            m["end"] = rng.choice((1, 2, 3, 0x10, 0x11, 0xB7, 0xC9, 0xE9, 0xF0, 0xF1, 0xFF, rng.randrange(1, 256), rng.randrange(1, 256)))
            treat[data] = {"status": m["end"], "delay": rng.choice((0.0, 0.002, 3.0))}
        elif x < 0.26:
            m["end"] = "none"
            treat[data] = {"noexec": True}
        elif x < 0.32:
            # an answer to a message whose sender is gone would be taken for the next one's
            cancel = rng.choice((0.0, 0.001, 0.1, 0.3)) + rng.random() * 1e-4
            treat[data] = {"drop": True} if cancel < 0.05 or case["slow"] or rng.random() < 0.3 else {"delay": 0.0}
        msgs[data] = m
        if how == "unicast":
            d = rng.choice(devs)
            dev = rig.device(app, d.ieee)
            if rng.random() < 0.1:
                while True:
                    new = rng.randrange(1, 0xFFF0)
                    if all(int(o.nwk) != new for o in app.devices.values()):
                        break
                dev.nwk = zt.NWK(new)
                z.devices.pop(d.nwk, None)
                d.nwk = new
                z.devices[new] = d
                ctx.count("address_changed")
            kw = {}
            if rng.random() < 0.5:
                kw["expect_reply"] = rng.random() < 0.5

            async def call():
                m["dsts"].append(int(dev.nwk))
                return await app.request(dev, prof, cl, sep, dep, seq, data, **kw)

            m["call"] = call
        elif how == "multicast":
            m["dst"] = zdo.u16(rng)
            m["dep"] = None
            if rng.random() < 0.1:
                sep = 0
                m["sep"] = None
            kw = {}
            h = rng.choice((None, 0, 1, 3, 7, 30, 255, rng.randrange(256)))
            if h is not None:
                kw["hops"] = h
                if h:
                    m["radius"] = h
                    ctx.count("hops_given")
            m["call"] = lambda: app.mrequest(m["dst"], prof, cl, sep, seq, data, **kw)
        else:
            b = rng.choice(list(zt.BroadcastAddress) + [None])
            m["dst"] = int(zt.BroadcastAddress.RX_ON_WHEN_IDLE if b is None else b)
            m["radius"] = rng.choice((0, 1, 3, 30, 255, rng.randrange(256)))
            a = () if b is None else (b,)
            g = rng.choice((0, 3))
            m["call"] = lambda: app.broadcast(prof, cl, sep, dep, g, m["radius"], seq, data, *a)
        t = asyncio.ensure_future(m["call"]())
        if cancel is not None:
            await asyncio.wait([t], timeout=cancel)
            if not t.done():
                t.cancel()
                m["end"] = "cancelled"
        r = await rig.outcome(t, 900)
        e = m["end"]
        if e == "ok":
            good = r[0] == "ok" and r[1][0] == 0
            ctx.count("accepted")
        elif e == "none":
            good = r[0] == "error"
            ctx.count("unanswered")
        elif e == "cancelled":
            good = True
            ctx.count("cancelled")
        else:
            good = (r[0] == "ok" and r[1][0] == e and isinstance(r[1][1], str) and r[1][1] != "")
            ctx.count("rejected")
        if not good:
            raise Violation("%s: the adapter's answer was %r, the caller was told %s %r" % (how, e, r[0], r[1]), message=m)
        ctx.count(how)

    async def worker(n):
        for _ in range(n):
            await one()

    await asyncio.gather(*[worker(case["n"] // case["tasks"] + 1) for _ in range(case["tasks"])])
    await asyncio.sleep(15)
    seen = {}
    for t, c, p in z.cmd_log:
        if c.name in ("dataRequest", "dataRequestExt"):
            if p is None or bytes(p["data"]) not in msgs:
                raise Violation("a message nobody sent was submitted: %r %r" % (c, p))
            seen.setdefault(bytes(p["data"]), []).append((c.name, p))
        elif c.name != "ledControl":
            raise Violation("sending messages made the driver submit %r %r" % (c, p))
    for data, m in msgs.items():
        s = seen.get(data, [])
        if len(s) != m["times"] and not (m["end"] == "cancelled" and not s):
            raise Violation("message sent %d times and submitted %d times" % (m["times"], len(s)), message=m)
        if not s:
            continue
        if m["how"] == "unicast":
            # the addresses it went to, in any order
            if sorted(m["dsts"]) != sorted(p["dstaddr"] if name == "dataRequest" else
                                           int.from_bytes(p["dstaddr"][:2], "little") for name, p in s):
                raise Violation("message for %s submitted as %s" % (m["dsts"], s), message=m)
        for name, p in s:
            _same(m, data, name, p)
        ctx.sig(sorted((k, repr(v)) for k, v in m.items() if k != "call"))
        ctx.sample(s[0])
    rig.check_wire(z)
    rig.check_escaped(loop)
    await app.shutdown()


def _same(m, data, name, p):
    if m["how"] == "unicast" and name == "dataRequest":
        dst, mode = p["dstaddr"], 2
    elif name == "dataRequestExt":
        dst, mode = int.from_bytes(p["dstaddr"][:2], "little"), p["dstaddrmode"]
        if p["dstpanid"] != 0:
            raise Violation("message sent to another PAN: %r" % p, message=m)
    else:
        dst, mode = p["dstaddr"], 2
        if m["how"] == "multicast":
            mode = None
    want = {"dstaddr": dst if m["how"] == "unicast" else m["dst"], "mode": 1 if m["how"] == "multicast" else 2, "clusterid": m["cl"],
            "transid": m["seq"], "len": len(data), "data": data}
    got = {"dstaddr": dst, "mode": mode, "clusterid": p["clusterid"], "transid": p["transid"], "len": p["len"],
           "data": bytes(p["data"])}
    if m["sep"] is not None:
        want["srcendpoint"], got["srcendpoint"] = m["sep"], p["srcendpoint"]
    if m["dep"] is not None:
        want["destendpoint"], got["destendpoint"] = m["dep"], p["destendpoint"]
    elif p["destendpoint"] != 0xFF:
        raise Violation("multicast to endpoint %d only" % p["destendpoint"], message=m)
    if m["how"] != "unicast" and "radius" in m:
        want["radius"], got["radius"] = m["radius"], p["radius"]
    elif p["radius"] == 0:
        raise Violation("message limited to 0 hops", message=m)
    if got != want:
        raise Violation("%s submitted as %s, asked for %s" % (m["how"], got, want))
