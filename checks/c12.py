"""C12: ZDO replies reach the caller with the content the device sent."""
import asyncio

from lib import mtspec as mt, rig, vloop, zdo
from lib.core import Violation

PROP = "C12"
CASES = {"quick": 1200, "thorough": 20000}
RULE = ("A case is 10-60 ZDO requests of 12 kinds to 4 devices, each answered with random content "
        "(boundary values, empty to full lists, success or error status, zeroed error replies) or, in a third of the "
        "cases, made through zigpy's own calls whose results are compared. Distinct = distinct reply content; "
        "non-trivial = it was delivered.")
REQUIRED = dict({"reply_" + k: 150 for k in zdo.KINDS}, error_status=800, zeroed_errors=300, through_zigpy=800,
                long_lists=100)


def make_case(i, rng, ctx):
    return {"product": rng.randrange(3), "n": rng.choice((10, 30, 60)), "zigpy": i % 3 == 0}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


def seen(kind, args):
    """What zigpy decoded, as plain values."""
    out = [int(args[0])]
    if kind in ("bind", "unbind", "leave", "permit"):
        return out + [len(args) - 1]
    if kind == "lqi":
        n = args[1]
        return out + [int(n.entries), int(n.start_index), [
            (bytes(x.extended_pan_id.serialize()), bytes(x.ieee.serialize()), int(x.nwk), int(x.device_type),
             int(x.rx_on_when_idle), int(x.relationship), int(x.permit_joining), int(x.depth), int(x.lqi))
            for x in n.neighbor_table_list]]
    if kind == "rtg":
        n = args[1]
        return out + [int(n.Entries), int(n.StartIndex), [(int(x.DstNWK), int(x.RouteStatus), int(x.NextHop))
                                                          for x in n.RoutingTableList]]
    out.append(int(args[1]))
    if kind == "node":
        return out + [args[2].serialize()]
    if kind == "power":
        return out + [args[2].serialize()]
    if kind == "simple":
        s = args[2]
        if s is None:
            return out + [None]
        return out + [int(s.endpoint), int(s.profile), int(s.device_type), int(s.device_version),
                      [int(x) for x in s.input_clusters], [int(x) for x in s.output_clusters]]
    if kind in ("active", "match"):
        return out + [[int(x) for x in args[2]]]
    raise AssertionError(kind)


def understood(kind, args, b):
    try:
        return seen(kind, args)
    except (AttributeError, TypeError, IndexError) as e:
        raise Violation("%s reply decoded as %r (%r)" % (kind, args, e), sent=b)


def sent(kind, b):
    out = [b["status"]]
    if kind in ("bind", "unbind", "leave", "permit"):
        return out + [0]
    if kind == "lqi":
        return out + [b["neighbortableentries"], b["startindex"], [
            (x["extPanId"], x["extAddr"], x["nwkAddr"], x["deviceType"], x["rxOnWhenIdle"], x["relationship"],
             x["permitJoin"], x["depth"], x["lqi"]) for x in b["neighborlqilist"]]]
    if kind == "rtg":
        return out + [b["routingtableentries"], b["startindex"], [
            (x["destAddr"], x["status"], x["nextHop"]) for x in b["routingtablelist"]]]
    out.append(b["nwkaddr"])
    if kind == "node":
        return out + [bytes([b["logicaltype_cmplxdescavai_userdescavai"], b["apsflags_freqband"], b["maccapflags"]])
                      + zdo.le(b["manufacturercode"]) + bytes([b["maxbuffersize"]]) + zdo.le(b["maxintransfersize"])
                      + zdo.le(b["servermask"]) + zdo.le(b["maxouttransfersize"]) + bytes([b["descriptorcap"]])]
    if kind == "power":
        return out + [bytes([b["currentpowermode_avaipowersrc"], b["currentpowersrc_currentpowersrclevel"]])]
    if kind == "simple":
        if b["len"] == 0:
            return out + [None]
        return out + [b["endpoint"], b["profileid"], b["deviceid"], b["deviceversion"], b["inclusterlist"],
                      b["outclusterlist"]]
    if kind == "active":
        return out + [b["activeeplist"]]
    if kind == "match":
        return out + [list(b["matchlist"])]
    raise AssertionError(kind)


def zero(b):
    return {k: ([] if isinstance(v, list) else b"" if isinstance(v, bytes) else 0) for k, v in b.items()}


async def _run(loop, case, rng, ctx):
    world, z, app = await rig.app_rig(loop, rng, product=case["product"])
    devs = [rig.known_device(app, z, rng, n) for n in rng.sample((1, 0xFF, 0x100, 0x2000, 0x8001, 0xFFF7, rng.randrange(0x3000, 0x8000)), 4)]
    app.forward = case["zigpy"]
    log = []
    cur = {}

    def hook(name, dst, p, body, default):
        k = zdo.KINDS[cur["kind"]]
        b = k.reply(rng, dst)
        if "nwkaddr" in b and rng.random() < 0.3:
            b["nwkaddr"] = zdo.u16(rng)
        if b["status"] and rng.random() < 0.5:
            b = dict(zero(b), srcaddr=dst, status=b["status"])
            ctx.count("zeroed_errors")
        cur["body"] = b
        return [(rng.choice((0.0, 0.01, 1.0)), mt.command_frame(mt.ZDO, k.rsp, b, mt.AREQ))]

    z.zdo_hook = hook
    for _ in range(case["n"]):
        kind = cur["kind"] = rng.choice(sorted(zdo.KINDS))
        if kind == "user" and case["zigpy"]:
            continue                  # this zigpy cannot decode user descriptors itself
        k = zdo.KINDS[kind]
        d = rng.choice(devs)
        dev = rig.device(app, d.ieee)
        body = k.request(rng, d.nwk)
        if case["zigpy"]:
            hdr, args = dev.zdo.deserialize(k.cluster, b"\0" + body)
            r = await rig.outcome(dev.zdo.request(k.cluster, *args), 60)
            b = cur["body"]
            log.append((kind, b))
            if r[0] != "ok":
                raise Violation("%s answered with %s, but zigpy's request ended with %s %r" % (kind, b, r[0], r[1]))
            got = understood(kind, r[1], b)
            ctx.count("through_zigpy")
        else:
            del app.messages[:]
            tsn = rng.choice((0, 1, 255, rng.randrange(256)))
            r = await rig.outcome(app.request(dev, 0, k.cluster, 0, 0, tsn, bytes([tsn]) + body), 60)
            await asyncio.sleep(2)
            b = cur["body"]
            log.append((kind, b))
            if r[0] != "ok" or r[1][0] != 0:
                raise Violation("accepted %s request ended with %r" % (kind, r))
            if len(app.messages) != 1:
                raise Violation("%s answered with %s: %d messages delivered" % (kind, b, len(app.messages)))
            m = app.messages[0]
            if m[1] != d.ieee or m[2] != k.reply_cluster or m[3] != 0 or m[4] != 0 or m[5][0] != tsn:
                raise Violation("%s reply delivered as %r; expected device %s cluster %#x tsn %d" % (
                    kind, m, d.ieee.hex(), k.reply_cluster, tsn))
            if kind == "user":
                want = bytes([tsn, b["status"]]) + zdo.le(b["nwkaddr"]) + bytes([b["userlength"]]) + b["userdescriptor"]
                if m[5] != want:
                    raise Violation("user descriptor reply delivered as %s, the device sent %s" % (
                        m[5].hex(), want.hex()))
                ctx.count("reply_user")
                continue
            try:
                hdr, args = dev.zdo.deserialize(k.reply_cluster, m[5])
            except Exception as e:
                raise Violation("zigpy cannot decode the %s reply delivered as %s: %r" % (kind, m[5].hex(), e), sent=b)
            if not hdr.is_reply or int(hdr.command_id) != k.reply_cluster or int(hdr.tsn) != tsn:
                raise Violation("%s reply has header %r" % (kind, hdr))
            got = understood(kind, args, b)
        if got != sent(kind, b):
            raise Violation("%s reply decoded as %s, the device sent %s" % (kind, got, sent(kind, b)), sent=b)
        ctx.count("reply_" + kind)
        if b["status"]:
            ctx.count("error_status")
        if any(isinstance(v, (list, bytes)) and len(v) > 16 for v in b.values()):
            ctx.count("long_lists")
        ctx.sig(kind, sorted((n, repr(v)) for n, v in b.items()))
        if rng.random() < 0.2:
            await asyncio.sleep(0.5)
    rig.check_escaped(loop)
    ctx.sample(log[:2])
    await app.shutdown()
