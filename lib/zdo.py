"""ZDO request kinds: how zigpy writes the request, how a device answers.

Written from the Zigbee specification and the monitor-and-test documentation.
"""
from . import mtspec as mt

STATUSES = (0, 0, 0, 0x80, 0x81, 0x82, 0x84, 0x88, 0x8D)


def le(v, n=2):
    return int(v).to_bytes(n, "little")


def u16(rng):
    return rng.choice((0, 1, 0xFF, 0x100, 0xFFFF, rng.randrange(65536), rng.randrange(65536)))


def u8(rng):
    return rng.choice((0, 1, 255, rng.randrange(256), rng.randrange(256)))


def ieee(rng):
    r = bytes(rng.randrange(256) for _ in range(8))
    k = rng.random()
    if k < 0.3:
        # like those of real devices, and with halves of all zeros or ones
        f = rng.choice((b"\0\0\0\0", b"\xff\xff\xff\xff", b"\0\x4b\x12\0", b"\0\0\0\xfe"))
        r = r[:4] + f if k < 0.2 else f + r[4:]
    return r


class Kind:
    def __init__(self, cluster, req, rsp, request, reply):
        self.cluster, self.req, self.rsp = cluster, req, rsp
        self.reply_cluster = cluster | 0x8000
        self.request = request        # (rng, nwk) -> bytes after the tsn
        self._reply = reply           # (rng, nwk) -> rsp fields besides srcaddr

    def reply(self, rng, nwk):
        b = dict(srcaddr=nwk, status=rng.choice(STATUSES))
        b.update(self._reply(rng, nwk))
        out = {}
        for n, t in mt.BY_NAME[(mt.ZDO, self.rsp)].req:
            out[n] = b[n]
        return out


def node(rng, nwk):
    return dict(nwkaddr=nwk, logicaltype_cmplxdescavai_userdescavai=rng.choice((1, 2, 0x12, u8(rng))),
                apsflags_freqband=rng.choice((0x40, u8(rng))), maccapflags=rng.choice((0x8E, 0x80, u8(rng))), manufacturercode=u16(rng), maxbuffersize=u8(rng),
                maxintransfersize=u16(rng), servermask=u16(rng), maxouttransfersize=u16(rng), descriptorcap=u8(rng))


def simple(rng, nwk):
    i = [u16(rng) for _ in range(rng.choice((0, 1, 4, 16, rng.randrange(30))))]
    o = [u16(rng) for _ in range(rng.choice((0, 1, 4, 16, rng.randrange(30))))]
    return dict(nwkaddr=nwk, len=8 + 2 * len(i) + 2 * len(o), endpoint=u8(rng), profileid=u16(rng),
                deviceid=u16(rng), deviceversion=u8(rng), numinclusters=len(i), inclusterlist=i,
                numoutclusters=len(o), outclusterlist=o)


def active(rng, nwk):
    e = [u8(rng) for _ in range(rng.choice((0, 1, 3, 77, rng.randrange(78), rng.randrange(240))))]
    return dict(nwkaddr=nwk, activeepcount=len(e), activeeplist=e)


def match(rng, nwk):
    e = [u8(rng) for _ in range(rng.choice((0, 1, 3, rng.randrange(60), rng.randrange(240))))]
    return dict(nwkaddr=nwk, matchlength=len(e), matchlist=bytes(e))


def neighbor(rng):
    return dict(extPanId=ieee(rng), extAddr=ieee(rng), nwkAddr=u16(rng), deviceType=rng.randrange(4),
                rxOnWhenIdle=rng.randrange(4), relationship=rng.randrange(8), permitJoin=rng.randrange(4),
                depth=u8(rng), lqi=u8(rng))


def lqi(rng, nwk):
    n = [neighbor(rng) for _ in range(rng.choice((0, 1, 2, 3, 6, 10, 11)))]
    return dict(neighbortableentries=rng.choice((len(n), rng.randrange(40), u8(rng))), startindex=rng.choice((0, 2, 30, u8(rng))),
                neighborlqilistcount=len(n), neighborlqilist=n)


def rtg(rng, nwk):
    n = [dict(destAddr=u16(rng), status=u8(rng), nextHop=u16(rng)) for _ in range(rng.choice((0, 1, 2, 10, 20, 48)))]
    return dict(routingtableentries=rng.choice((len(n), rng.randrange(60), u8(rng))), startindex=rng.choice((0, 2, 30, u8(rng))),
                routingtablelistcount=len(n), routingtablelist=n)


def user(rng, nwk):
    t = bytes(rng.choice((rng.randrange(32, 127), u8(rng))) for _ in range(rng.choice((0, 16, rng.randrange(17)))))
    return dict(nwkaddr=nwk, userlength=len(t), userdescriptor=t)


def match_req(rng, nwk):
    i = [u16(rng) for _ in range(rng.choice((0, 1, 5, 16, rng.randrange(50))))]
    o = [u16(rng) for _ in range(rng.choice((0, 1, 5, 16, rng.randrange(50))))]
    return le(nwk) + le(u16(rng)) + bytes([len(i)]) + b"".join(map(le, i)) + bytes([len(o)]) + b"".join(map(le, o))


def bind_req(rng, nwk):
    r = ieee(rng) + bytes([rng.randrange(1, 241)]) + le(u16(rng))
    return r + b"\x03" + ieee(rng) + bytes([rng.randrange(1, 241)])


NWK = lambda rng, nwk: le(nwk)
NONE = lambda rng, nwk: {}

KINDS = {
    "node": Kind(0x02, "nodeDescReq", "nodeDescRsp", NWK, node),
    "power": Kind(0x03, "powerDescReq", "powerDescRsp", NWK, lambda rng, nwk: dict(
        nwkaddr=nwk, currentpowermode_avaipowersrc=u8(rng), currentpowersrc_currentpowersrclevel=u8(rng))),
    "simple": Kind(0x04, "simpleDescReq", "simpleDescRsp",
                   lambda rng, nwk: le(nwk) + bytes([u8(rng)]), simple),
    "active": Kind(0x05, "activeEpReq", "activeEpRsp", NWK, active),
    "match": Kind(0x06, "matchDescReq", "matchDescRsp", match_req, match),
    "user": Kind(0x11, "userDescReq", "userDescRsp", NWK, user),
    "bind": Kind(0x21, "bindReq", "bindRsp", bind_req, NONE),
    "unbind": Kind(0x22, "unbindReq", "unbindRsp", bind_req, NONE),
    "lqi": Kind(0x31, "mgmtLqiReq", "mgmtLqiRsp", lambda rng, nwk: bytes([u8(rng)]), lqi),
    "rtg": Kind(0x32, "mgmtRtgReq", "mgmtRtgRsp", lambda rng, nwk: bytes([u8(rng)]), rtg),
    "leave": Kind(0x34, "mgmtLeaveReq", "mgmtLeaveRsp", lambda rng, nwk: ieee(rng) + bytes([rng.choice((0, 0x80))]), NONE),
    "permit": Kind(0x36, "mgmtPermitJoinReq", "mgmtPermitJoinRsp",
                   lambda rng, nwk: bytes([rng.randrange(255), 1]), NONE),
}


def sim_device(rng, nwk):
    """A device that can be interviewed."""
    from . import znp
    eps = {}
    for ep in rng.sample(range(1, 241), rng.choice((0, 1, 1, 2, 4))):
        prof, did = rng.choice(((260, 0x0100), (260, 0x0302), (260, 0), (0xC05E, 0), (0xA1E0, 0x61), (0x0109, 5)))
        ins = [c for c in rng.sample((1, 3, 6, 8, 0x300, 0x402, 0x500, 0xFC00, 0xFFFF), rng.randrange(6))]
        outs = rng.sample((3, 6, 8, 0x19, 0x300, 0xFC01), rng.randrange(4))
        eps[ep] = (prof, did, rng.randrange(3), ins, outs)
    if eps:
        # one endpoint with the basic cluster names the device
        ep = sorted(eps)[0]
        eps[ep][3].insert(rng.randrange(len(eps[ep][3]) + 1), 0)
    return znp.SimDevice(ieee(rng), nwk, znp.node_desc_fields(rng, rng.random() < 0.3), eps,
                         "".join(rng.choice("ABCdef 123") for _ in range(rng.choice((1, 5, 16)))).strip() + "x",
                         "m%d" % rng.randrange(10000))
