"""C11: ZDO requests reach the adapter with the meaning the caller gave them."""
import asyncio

import zigpy.types as zt
import zigpy.zdo
import zigpy.zdo.types as zdot
from lib import mtspec as mt, rig, vloop, zdo
from lib.core import Violation

PROP = "C11"
CASES = {"quick": 1600, "thorough": 20000}
RULE = ("A case is 5-40 calls through zigpy's own ZDO object (every request kind, random arguments, bindings to device "
        "endpoints and to groups) to 1-4 devices or the coordinator, mixed with application messages of many profiles, "
        "several at a time. Distinct = distinct adapter command; non-trivial = the adapter received it.")
KIND_NAMES = ("node", "power", "simple", "active", "match", "user", "bind", "bind-group", "unbind", "unbind-group", "lqi",
              "rtg", "leave", "permit", "permit-broadcast")
REQUIRED = dict({"cmd_" + k: 100 for k in KIND_NAMES}, rejected=1000, unanswered=400, app_messages=800, foreign_profile=500,
                foreign_profile_zdo_cluster=150, foreign_profile_multicast=60, foreign_profile_broadcast=60)

PROFILES = (260, 0x0101, 0x0109, 0xC05E, 0xA1E0, 1, 0xFFFF, 0x0104 ^ 0x8000)


def make_case(i, rng, ctx):
    return {"product": rng.randrange(3), "calls": rng.choice((5, 15, 40)), "tasks": rng.choice((1, 2, 6))}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


def clusters(rng):
    return [zdo.u16(rng) for _ in range(rng.choice((0, 1, 2, 5, 16, rng.randrange(50))))]


async def _run(loop, case, rng, ctx):
    world, z, app = await rig.app_rig(loop, rng, product=case["product"])
    devs = [rig.known_device(app, z, rng, n) for n in rng.sample((1, 0xFF, 0x100, 0x2000, 0x8001, 0xFFF7, rng.randrange(0x3000, 0x8000)), 4)]
    coord = next(d for d in app.devices.values() if d.nwk == 0)
    # a valid descriptor keeps zigpy from asking for one on its own
    coord.node_desc = zdot.NodeDescriptor(0, 64, 143, 0, 82, 82, 0, 82, 0)
    expected = []                 # (command, payload) in any order
    if rng.random() < 0.6:
        # zigpy's own numbering of requests, about to wrap
        app._send_sequence = rng.randrange(215, 256)
    del z.cmd_log[:]
    fate = {}                     # the answer of the adapter to a ZDO request that it does not accept

    def policy(cmd, n):
        if cmd.subsys != mt.ZDO or z.now_payload is None:
            return None
        f = next((f for e, f in fate.values() if same(e, cmd.name, z.now_payload)), None)
        return f and ({"noexec": True} if f == "none" else {"status": f})

    z.policy = policy

    def one():
        """-> (what, coroutine function); the expected adapter command is noted."""
        kind = rng.choice(KIND_NAMES + ("app",) * 8)
        target = rng.choice(devs + [None])
        dev = coord if target is None else rig.device(app, target.ieee)
        nwk = int(dev.nwk)
        other = rng.choice((nwk, nwk, zdo.u16(rng)))

        def want(name, **p):
            expected.append((kind, name, dict(dstaddr=nwk, **p)))
        zd = dev.zdo
        if kind == "node":
            want("nodeDescReq", nwkaddrofinterest=other)
            return zd.Node_Desc_req(other)
        if kind == "power":
            want("powerDescReq", nwkaddrofinterest=other)
            return zd.Power_Desc_req(other)
        if kind == "user":
            want("userDescReq", nwkaddrofinterest=other)
            return zd.User_Desc_req(other)
        if kind == "active":
            want("activeEpReq", nwkaddrofinterest=other)
            return zd.Active_EP_req(other)
        if kind == "simple":
            ep = zdo.u8(rng)
            want("simpleDescReq", nwkaddrofinterest=other, endpoint=ep)
            return zd.Simple_Desc_req(other, ep)
        if kind == "match":
            p, i, o = zdo.u16(rng), clusters(rng), clusters(rng)
            want("matchDescReq", nwkaddrofinterest=other, profileid=p, numinclusters=len(i), inclusterlist=i,
                 numoutclusters=len(o), outclusterlist=o)
            return zd.Match_Desc_req(other, p, i, o)
        if kind.startswith(("bind", "unbind")):
            src, sep, cl = zdo.ieee(rng), zdo.u8(rng), zdo.u16(rng)
            name = kind.split("-")[0] + "Req"
            a = zdot.MultiAddress()
            if kind.endswith("group"):
                g = zdo.u16(rng)
                a.addrmode, a.nwk = 1, g
                want(name, srcaddr=src, srcendpoint=sep, clusterid=cl, dstaddrmode=1, group=g)
            else:
                dst, dep = zdo.ieee(rng), zdo.u8(rng)
                a.addrmode, a.ieee, a.endpoint = 3, zt.EUI64(dst), dep
                want(name, srcaddr=src, srcendpoint=sep, clusterid=cl, dstaddrmode=3, dstaddress=dst, dstendpoint=dep)
            f = zd.Bind_req if name == "bindReq" else zd.Unbind_req
            return f(zt.EUI64(src), sep, cl, a)
        if kind == "lqi":
            s = zdo.u8(rng)
            want("mgmtLqiReq", startindex=s)
            return zd.Mgmt_Lqi_req(s)
        if kind == "rtg":
            s = zdo.u8(rng)
            want("mgmtRtgReq", startindex=s)
            return zd.Mgmt_Rtg_req(s)
        if kind == "leave":
            if rng.random() < 0.3:
                want("mgmtLeaveReq", deviceaddress=bytes(dev.ieee), removechildrenRejoin=2)
                return zd.leave()
            a, o = zdo.ieee(rng), zdo.u8(rng)
            want("mgmtLeaveReq", deviceaddress=a, removechildrenRejoin=o)
            return zd.Mgmt_Leave_req(zt.EUI64(a), o)
        if kind == "permit":
            d, tc = zdo.u8(rng), rng.choice((0, 1))
            want("mgmtPermitJoinReq", addrmode=2, duration=d, tcsignificance=tc)
            return zd.permit(d, tc)
        if kind == "permit-broadcast":
            d, tc = zdo.u8(rng), rng.choice((0, 1))
            expected.append((kind, "mgmtPermitJoinReq",
                             dict(addrmode=15, dstaddr=0xFFFC, duration=d, tcsignificance=tc)))
            return zigpy.zdo.broadcast(app, 0x36, 0, 0, d, tc,
                                       broadcast_address=zt.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR)
        prof = rng.choice(PROFILES + (zdo.u16(rng) or 2,))
        cl = rng.choice((2, 5, 6, 0x21, 0x31, 0x36, 0x0300, 0x1000, 0xFC00, zdo.u16(rng)))
        data = bytes(rng.randrange(256) for _ in range(rng.choice((1, 3, 20, 80, rng.randrange(1, 190)))))
        if data and data[0] & 3 == 0 and len(data) > 2:
            data = b"\x01" + data[1:]
        seq = rng.randrange(256)
        ep, dep = rng.randrange(1, 241), rng.choice((0, 255, rng.randrange(1, 241), rng.randrange(1, 241)))
        ctx.count("app_messages")
        how = rng.choice(("request", "request", "mrequest", "broadcast"))
        if prof != 260:
            ctx.count("foreign_profile")
            if cl in (2, 5, 0x21, 0x31, 0x36):
                ctx.count("foreign_profile_zdo_cluster")
        if how == "request":
            expected.append((kind, "data", dict(dstaddr=nwk, clusterid=cl, data=data, srcendpoint=ep, destendpoint=dep)))
            return app.request(dev, prof, cl, ep, dep, seq, data, expect_reply=rng.random() < 0.5)
        if prof != 260:
            ctx.count("foreign_profile_multicast" if how == "mrequest" else "foreign_profile_broadcast")
        if how == "mrequest":
            g = zdo.u16(rng)
            expected.append((kind, "data", dict(dstaddr=g, clusterid=cl, data=data, srcendpoint=ep)))
            return app.mrequest(g, prof, cl, ep, seq, data)
        b = rng.choice(list(zt.BroadcastAddress))
        expected.append((kind, "data", dict(dstaddr=int(b), clusterid=cl, data=data, srcendpoint=ep, destendpoint=dep)))
        return app.broadcast(prof, cl, ep, dep, 0, 30, seq, data, b)

    async def worker(n):
        for _ in range(n):
            n0 = len(expected)
            coro = one()
            e = expected[n0]
            if e[1] != "data" and repr(e) not in fate and rng.random() < 0.2 and e not in expected[:n0]:
                fate[repr(e)] = (e, rng.choice((1, 2, 0xC1, 0xC2, 0xF1, rng.randrange(1, 256), "none", "none")))
            f = fate.get(repr(e), (e, 0))[1]
            t0 = loop.time()
            r = await rig.outcome(coro)
            if not f:
                if r[0] == "error" and not isinstance(r[1], asyncio.TimeoutError):
                    raise Violation("%s ended with %r although the adapter accepts it" % (e, r[1]))
                continue
            if e[0] == "permit-broadcast" and f != "none":
                good = r[0] == "ok" and r[1][0] == f
            else:
                good = r[0] == "error"
            if not good or f == "none" and loop.time() - t0 < 5:
                raise Violation("the adapter's answer to %s was %s, the caller was told %s %r after %.1f s" % (
                    e, f, r[0], r[1], loop.time() - t0))
            ctx.count("unanswered" if f == "none" else "rejected")

    await asyncio.gather(*[worker(case["calls"] // case["tasks"] + 1) for _ in range(case["tasks"])])
    await asyncio.sleep(1)
    got = [(c.name, p) for _, c, p in z.cmd_log if c.name != "ledControl"]
    rest = list(expected)
    for name, p in got:
        hit = next((e for e in rest if same(e, name, p)), None)
        if hit is None:
            raise Violation("the adapter received %s %s, which no remaining request asks for; waiting: %s" % (
                name, p, [e for e in rest if (e[1] == "data") == name.startswith("data")][:3]))
        rest.remove(hit)
        if hit[0] != "app":
            ctx.count("cmd_" + hit[0])
        ctx.sig(name, sorted(p.items()))
        ctx.sample((name, p))
    if rest:
        raise Violation("requests that never reached the adapter: %s" % rest[:3])
    rig.check_wire(z)
    rig.check_escaped(loop)
    if z.violations:
        raise Violation("the adapter could not make sense of a command: %s" % z.violations[:2])
    await app.shutdown()


def same(e, name, p):
    kind, want, w = e
    if want == "data":
        if name not in ("dataRequest", "dataRequestExt"):
            return False
        p = dict(p)
        if name == "dataRequestExt":
            p["dstaddr"] = int.from_bytes(p["dstaddr"][:2], "little") if isinstance(p["dstaddr"], bytes) else p["dstaddr"]
    elif want != name:
        return False
    p = dict(p)
    if "group" in w:
        # a group is the two low bytes of the target field; its endpoint means nothing
        if p["dstaddrmode"] != 1:
            return False
        p["group"] = int.from_bytes(p["dstaddress"][:2], "little")
        del p["dstaddress"], p["dstendpoint"]
    if want == "data":
        return all(rig.norm(p[k]) == v for k, v in w.items())
    return {k: rig.norm(v) for k, v in p.items()} == w
