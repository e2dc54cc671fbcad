"""Simulated Z-Stack network coprocessor with non-volatile memory and a network of
simulated devices behind it.  Written from the Z-Stack monitor-and-test
documentation; not from the driver."""
import random

from . import mtspec as mt
from .adapter import Adapter

NV_STARTUP, NV_EXTPAN, NV_KEY, NV_KEYDIST, NV_PAN, NV_CHAN, NV_LOGICAL, NV_DIRECTCB, NV_TCLK = (
    3, 45, 98, 99, 131, 132, 135, 143, 257)
MARKER1, MARKER3 = 3840, 96
ZDO_SUCCESS = 0
AREQ_STATE, AREQ_RESET = "stateChangeInd", "resetInd"

TCLK = bytes([0xFF] * 8) + b"ZigBeeAlliance09" + bytes(8)


def default_nv():
    return {
        NV_STARTUP: b"\x00",
        NV_EXTPAN: b"\xff" * 8,
        NV_KEY: bytes(16),
        NV_KEYDIST: b"\x01",
        NV_PAN: b"\xff\xff",
        NV_CHAN: b"\x00\x08\x00\x00",
        NV_LOGICAL: b"\x01",
        NV_DIRECTCB: b"\x00",
        NV_TCLK: bytes(32),
    }


class SimDevice:
    """A Zigbee device on the air."""

    def __init__(self, ieee, nwk, node_desc, endpoints, manufacturer="Acme", model="Widget"):
        self.ieee = bytes(ieee)
        self.nwk = nwk
        self.node_desc = node_desc        # dict of nodeDescRsp fields
        self.endpoints = endpoints        # ep -> (profile, device, version, [in], [out])
        self.manufacturer, self.model = manufacturer, model
        self.neighbors = []
        self.power = (0x10, 0xC1)
        self.silent = False
        self.binds = []
        self.received = []


def node_desc_fields(rng=None, end_device=False):
    r = rng or random.Random(0)
    return dict(logicaltype_cmplxdescavai_userdescavai=2 if end_device else 1,
                apsflags_freqband=0x40, maccapflags=0x80 if end_device else 0x8E,
                manufacturercode=r.choice([0x1037, 0x115F, 0x117C, 0xFFFF, 1]), maxbuffersize=r.choice([80, 127]),
                maxintransfersize=r.choice([82, 128, 0x0100]), servermask=r.choice([0, 0x2C00, 1]),
                maxouttransfersize=r.choice([82, 128, 0x0200]), descriptorcap=r.choice([0, 3]))


class Reply(dict):
    """How one SREQ is treated: delay, drop, status, before/same/after frames."""


class Znp(Adapter):
    def __init__(self, world, product=0, rng=None, ieee=None, nv=None, **kw):
        super().__init__(world, **kw)
        self.product = product
        self.rng = rng or random.Random(1)
        self.ieee = bytes(ieee or b"\xee\xdd\xcc\xbb\xaa\x99\x88\x77")
        self.nv = default_nv() if nv is None else dict(nv)
        r = self.rng
        # releases of the same firmware; nothing depends on them
        self.release = r.choice(((2, 2, 6, 3, 20190608), (2, 2, 7, 1, 20210120), (2, 2, 7, 2, 20220219), (2, 2, 6, 0, 0),
                                 (2, 0, 0, 0, 0xFFFFFFFF), (2, 1, 0, 0, 1), (0, 2, 7, 1, 20210708),
                                 tuple(r.randrange(256) for _ in range(5))))
        self.nib = None                # running/persisted network parameters
        self.devstate = 0
        self.bdb = {}
        self.no_sapi = False           # whether SAPI requests are refused on Z-Stack 3.x.0
        self.bad_primary = False       # forming fails on the primary channels (Z-Stack 3)
        self.default_secondary = b"\x00\xf8\xff\x07"
        self.eps = {}
        self.groups = {}               # (ep, group) -> count of adds
        self.group_log = []
        self.reg_log = []
        self.nv_writes = []
        self.resets = 0
        self.commissioning = []
        self.devices = {}              # nwk -> SimDevice
        self.delay = lambda cmd: 0.002
        self.policy = lambda cmd, n: None
        self.n = 0
        self.outstanding = None        # SREQ accepted and not yet answered
        self.outstanding_at = 0.0
        self.violations = []           # protocol order errors by the host
        self.led = []
        self.permits = []
        self.cmd_log = []              # (time, cmd, payload or None)
        self.air_delay = lambda kind: 0.05
        self.on_data = None            # hook(payload) for AF data
        self.confirm_status = lambda p: 0
        self.zdo_hook = None           # hook(cmd, payload, default) -> list of (delay, frame)
        self.drop_state_ind = lambda: False
        self.drop_reset_ind = lambda: False
        self.assoc = []
        self.cfm_hook = None
        self.boot_until = 0.0
        self.pending_areqs = []
        self.awaiting_reset_ind = False

    # ------------------------------------------------------------ helpers
    def opened(self, port):
        super().opened(port)
        self.outstanding = None        # the host that asked is gone
        self.awaiting_reset_ind = False

    def areq(self, sub, name, payload, delay=0.0, ordered=True):
        return self.send(mt.command_frame(sub, name, payload, mt.AREQ), delay, ordered)

    @staticmethod
    def _limit(cmd):
        return 20 if cmd.name in ("bdbStartCommissioning", "startupFromApp") else 6

    def power_cut(self):
        """Everything volatile is gone; non-volatile memory stays."""
        self.gen += 1
        self.devstate = 0
        self.bdb = {}
        self.eps = {}
        self.outstanding = None
        self.awaiting_reset_ind = False
        self._apply_startup_option()
        self.last_due = self.world.now()

    def _apply_startup_option(self):
        opt = self.nv.get(NV_STARTUP, b"\0")[0]
        if opt & 0x02:
            self.nib = None
            self.groups = {}
        if opt & 0x01:
            keep = {k: v for k, v in self.nv.items() if k in (MARKER1, MARKER3)}
            self.nv = default_nv()
            self.nv.update(keep)
        self.nv[NV_STARTUP] = b"\0"

    def reset(self):
        self.resets += 1
        self.gen += 1
        self.devstate = 0
        self.bdb = {}
        self.eps = {}
        self.last_due = self.world.now()
        self._apply_startup_option()
        self.awaiting_reset_ind = False
        if not self.drop_reset_ind():
            self.awaiting_reset_ind = True
            self.boot_until = self.world.now() + self.delay(None) + self.rng.choice([0.05, 0.4, 1.5])

            def ind():
                self.awaiting_reset_ind = False

            t, a, b = self.release[:3]
            due = self.areq(mt.SYS, "resetInd", dict(reason=self.release[4] % 3, transportrev=t, productid=self.product,
                                                     majorrel=a, minorrel=b, hwrev=3),
                            self.boot_until - self.world.now())
            gen = self.gen
            self.loop.call_at(1000.0 + due, lambda: gen == self.gen and ind())

    def form(self):
        pan = int.from_bytes(self.nv[NV_PAN], "little")
        channels = self.bdb.get("primary", self.nv[NV_CHAN]) if self.product else self.nv[NV_CHAN]
        if self.bad_primary:
            channels = self.secondary()
        self.nib = {
            "pan": pan if pan != 0xFFFF else 0x3A5C,
            "extpan": self.nv[NV_EXTPAN],
            "key": self.nv[NV_KEY],
            "channels": channels,
        }

    def secondary(self):
        """The channels tried when no network can be formed on the primary ones."""
        s = self.bdb.get("secondary", self.default_secondary)
        return s if any(s) else None

    def start(self, delay=0.0):
        """Come up as coordinator."""
        if self.nv[NV_LOGICAL] != b"\x00":
            return
        if self.nib is None:
            if self.bad_primary and not self.secondary():
                return                 # no network can be formed
            self.form()
        if self.drop_state_ind():
            return
        gen = self.gen
        gap = self.rng.choice([0.01, 0.5, 2.0, 10.0])
        if self.rng.random() < 0.2:
            # the notifications reach the host before the response, which they delay
            gap = min(gap, 2.0)
            self.areq(mt.ZDO, "stateChangeInd", dict(state=8), delay)
            due = self.areq(mt.ZDO, "stateChangeInd", dict(state=9), delay + gap)
            # state changes just before the indication is sent
            self.loop.call_at(1000.0 + due - 1e-6, lambda: gen == self.gen and setattr(self, "devstate", 9))
            return

        def up():
            if gen == self.gen:
                self.devstate = 9
                self.areq(mt.ZDO, "stateChangeInd", dict(state=9))

        def starting():
            if gen == self.gen:
                if self.devstate != 9:
                    self.devstate = 8
                self.areq(mt.ZDO, "stateChangeInd", dict(state=8))
                self.loop.call_later(gap, up)

        self.loop.call_later(delay, starting)

    def matches(self, cfg):
        """Differences between non-volatile settings and a configuration dict."""
        out = []
        exp = {NV_CHAN: cfg["channels"], NV_KEYDIST: b"\0", NV_KEY: cfg["key"],
               NV_LOGICAL: b"\0", NV_DIRECTCB: b"\x01",
               NV_PAN: cfg["pan"].to_bytes(2, "little"), NV_EXTPAN: cfg["extpan"]}
        for k, v in exp.items():
            if self.nv.get(k) != v:
                out.append("nv item %d is %s, configuration says %s" % (
                    k, self.nv.get(k).hex() if self.nv.get(k) is not None else None, v.hex()))
        return out

    # ------------------------------------------------------------ frames in
    def on_frame(self, typ, sub, cid, data):
        cmd = mt.BY_ID.get((sub, cid))
        now = self.world.now()
        if cmd is None:
            self.violations.append("unknown command %d/%d" % (sub, cid))
            return
        if self.awaiting_reset_ind:
            self.violations.append("%r sent at %.3f before the reset indication" % (cmd, now))
        if self.outstanding is not None and now - self.outstanding_at < self._limit(self.outstanding) - 1e-6:
            self.violations.append("%r sent at %.3f while %r is unanswered" % (cmd, now, self.outstanding))
        if typ == mt.AREQ:
            self.cmd_log.append((now, cmd, None))
            if (sub, cmd.name) == (mt.SYS, "resetReq") or (sub, cmd.name) == (mt.SAPI, "systemReset"):
                self.reset()
            return
        if typ != mt.SREQ:
            self.violations.append("frame type %d from the host" % typ)
            return
        try:
            payload, rest = mt.decode(cmd.req, data)
        except mt.Short:
            payload, rest = None, b""
            self.violations.append("%r: payload too short (%s)" % (cmd, data.hex()))
        if rest and not (cmd.name in ("osalNvRead",)):
            self.violations.append("%r: %d bytes too many (%s)" % (cmd, len(rest), data.hex()))
        self.cmd_log.append((now, cmd, payload))
        if sub == mt.SAPI and self.product == 1 and self.no_sapi:
            # Z-Stack 3.x.0 has no SAPI any more
            self.send(mt.frame(mt.SRSP, 0, 0, bytes([1, 0x20 | sub, cid])), 0.002)
            return
        n = self.n
        self.n += 1
        self.now_payload, self.now_data = payload, data
        pol = self.policy(cmd, n) or {}
        if pol.get("hook"):
            if pol["hook"]() == "stop":
                return
        if payload is None:
            rsp, after = {"status": 2}, []
        elif pol.get("status") is not None:
            rsp, after = {"status": pol["status"]}, []
            if cmd.name == "osalNvRead":
                rsp.update(len=0, value=b"")
        elif pol.get("noexec"):
            rsp, after = None, []
        else:
            rsp, after = self.execute(cmd, payload)
        if pol.get("quiet"):           # the notifications that follow are lost
            after = []
        if pol.get("drop") or rsp is None:
            if not pol.get("silent_areqs"):
                for d, f in after:
                    self.send(f, d)
            return
        body = self._fill(cmd, rsp, payload)
        frame = mt.frame(mt.SRSP, sub, cid, mt.encode(cmd.rsp, body))
        delay = pol.get("delay", self.delay(cmd))
        blob = b"".join(pol.get("before", ())) + frame + b"".join(pol.get("same", ()))
        glue = pol.get("glue")       # follow-up notifications in the same read
        early = pol.get("early")     # follow-up notifications before the response
        if early:
            for d, f in after:
                self.send(f, 0)
            after = []
        elif glue:
            blob += b"".join(f for _, f in after)
            after = []
        self.outstanding = cmd
        self.outstanding_at = now
        gen = self.gen

        def fire():
            if gen == self.gen and self.outstanding is cmd:
                self.outstanding = None

        due = self.send(blob, delay)
        self.loop.call_at(1000.0 + due, fire)
        for d, f in after:
            self.send(f, delay + d)

    def _fill(self, cmd, rsp, payload):
        out = {}
        for n, t in cmd.rsp:
            if n in rsp:
                out[n] = rsp[n]
            elif t in mt.INTS:
                out[n] = 0
            elif t == "IEEEADDR":
                out[n] = bytes(8)
            elif t in mt.FIXED_BUF:
                out[n] = bytes(mt.FIXED_BUF[t])
            elif t == "BUFFER":
                out[n] = b""
            else:
                out[n] = []
        return out

    # ------------------------------------------------------------ commands
    def execute(self, cmd, p):
        f = getattr(self, "do_%d_%s" % (cmd.subsys, cmd.name), None)
        if f is None:
            return {"status": 0}, []
        r = f(p)
        if r is None:
            return {"status": 0}, []
        if isinstance(r, tuple):
            return r
        return r, []

    def do_1_ping(self, p):
        return {"capabilities": 0x0779}

    def do_1_version(self, p):
        t, a, b, c, rev = self.release
        return dict(transportrev=t, product=self.product, majorrel=a, minorrel=b, maintrel=c, revision=rev)

    def do_1_osalNvRead(self, p):
        v = self.nv.get(p["id"])
        if v is None:
            return dict(status=2, len=0, value=b"")
        v = v[p["offset"]:]
        return dict(status=0, len=len(v), value=v)

    def _nv_write(self, item, off, value):
        if item not in self.nv:
            return {"status": 2}
        old = self.nv[item]
        if off + len(value) > len(old):
            return {"status": 10}
        self.nv[item] = old[:off] + bytes(value) + old[off + len(value):]
        self.nv_writes.append((item, self.nv[item]))
        return {"status": 0}

    def do_1_osalNvWrite(self, p):
        return self._nv_write(p["id"], p["offset"], p["value"])

    def do_1_osalNvItemInit(self, p):
        if p["id"] in self.nv:
            return {"status": 0}
        self.nv[p["id"]] = bytes(p["initvalue"]).ljust(p["len"], b"\xff")
        self.nv_writes.append((p["id"], self.nv[p["id"]]))
        return {"status": 9}

    def do_6_readConfiguration(self, p):
        v = self.nv.get(p["configid"])
        if v is None:
            return dict(status=2, configid=p["configid"], len=0, value=b"")
        return dict(status=0, configid=p["configid"], len=len(v), value=v)

    def do_6_writeConfiguration(self, p):
        return self._nv_write(p["configid"], 0, p["value"])

    def do_7_getDeviceInfo(self, p):
        return dict(status=0, ieeeaddr=self.ieee, shortaddr=0, devicetype=7, devicestate=self.devstate,
                    numassocdevices=len(self.assoc), assocdeviceslist=list(self.assoc))

    def do_7_ledControl(self, p):
        self.led.append((self.world.now(), p["ledid"], p["mode"]))
        return {"status": 0}

    def do_15_bdbSetChannel(self, p):
        self.bdb["primary" if p["isPrimary"] else "secondary"] = p["channel"].to_bytes(4, "little")
        return {"status": 0}

    def do_15_bdbStartCommissioning(self, p):
        self.commissioning.append(p["mode"])
        if p["mode"] & 4:
            # a network the adapter is already on is resumed, not formed again
            self.start(self.rng.choice([0.0, 0.02, 0.3]))
        return {"status": 0}

    def do_5_startupFromApp(self, p):
        restored = self.nib is not None
        self.commissioning.append("app")
        self.start(0.001 * p["startdelay"])
        return {"status": 0 if restored else 1}

    def do_4_register(self, p):
        self.reg_log.append(p["endpoint"])
        if p["endpoint"] in self.eps:
            return {"status": 0xB8}
        if p["appnuminclusters"] != len(p["appinclusterlist"]):
            return {"status": 2}
        self.eps[p["endpoint"]] = (p["appprofid"], p["appdeviceid"], p["appdevver"], p["latencyreq"],
                                   tuple(p["appinclusterlist"]), tuple(p["appoutclusterlist"]))
        return {"status": 0}

    def do_5_extFindGroup(self, p):
        ok = (p["endpoint"], p["groupid"]) in self.groups
        # what the other fields hold then is anybody's guess
        same = ok or (len(self.eps) + self.product) % 2
        return dict(status=0 if ok else 1, groupid=p["groupid"] if same else 0, namelen=0, groupname=b"")

    def do_5_extAddGroup(self, p):
        k = (p["endpoint"], p["groupid"])
        self.group_log.append(k)
        self.groups[k] = self.groups.get(k, 0) + 1
        return {"status": 0}

    def do_5_mgmtPermitJoinReq(self, p):
        self.permits.append((self.world.now(), p))
        out = []
        if p["addrmode"] == 15 or p["dstaddr"] in (0, 0xFFFC):
            out.append((0.01, mt.command_frame(mt.ZDO, "permitJoinInd", dict(duration=p["duration"]), mt.AREQ)))
        if p["addrmode"] == 15:
            out.append((0.02, mt.command_frame(mt.ZDO, "mgmtPermitJoinRsp", dict(srcaddr=0, status=0), mt.AREQ)))
        else:
            out += self._zdo("mgmtPermitJoinRsp", p["dstaddr"], p, lambda d: {})
        return {"status": 0}, out

    # AF data --------------------------------------------------------------
    def do_4_dataRequest(self, p):
        return self._data(p)

    def do_4_dataRequestExt(self, p):
        return self._data(p)

    def _data(self, p):
        if self.on_data is not None:
            r = self.on_data(p)
            if r is not None:
                return r
        out = [(0.01, mt.command_frame(mt.AF, "dataConfirm", dict(
            status=self.confirm_status(p), endpoint=p["srcendpoint"], transid=p["transid"]), mt.AREQ))]
        dst = p["dstaddr"]
        if isinstance(dst, int) and dst in self.devices:
            out += self._zcl(self.devices[dst], p)
        return {"status": 0}, out

    def _zcl(self, dev, p):
        """Answer 'read attributes' on the basic cluster; ignore the rest."""
        dev.received.append(p)
        data = p["data"]
        if dev.silent or len(data) < 3 or data[0] & 0x03 or data[2] != 0x00:
            return []
        attrs = [data[i] | data[i + 1] << 8 for i in range(3, len(data) - 1, 2)]
        body = b""
        for a in attrs:
            v = {4: dev.manufacturer, 5: dev.model}.get(a) if p["clusterid"] == 0 else None
            if v is None:
                body += a.to_bytes(2, "little") + b"\x86"
            else:
                body += a.to_bytes(2, "little") + b"\x00\x42" + bytes([len(v)]) + v.encode()
        rsp = bytes([0x18, data[1], 0x01]) + body
        return [(self.air_delay("zcl"), self.incoming(dev, p["clusterid"], p["destendpoint"],
                                                      p["srcendpoint"], rsp))]

    def incoming(self, dev, cluster, src_ep, dst_ep, data, lqi=120, seq=0):
        return mt.command_frame(mt.AF, "incomingMsg", dict(
            groupid=0, clusterid=cluster, srcaddr=dev.nwk, srcendpoint=src_ep, dstendpoint=dst_ep,
            wasbroadcast=0, linkquality=lqi, securityuse=0, timestamp=0, transseqnumber=seq,
            len=len(data), data=data), mt.AREQ)

    # ZDO --------------------------------------------------------------------
    def _zdo(self, name, dst, p, fields):
        dev = self.devices.get(dst)
        if dev is None or dev.silent:
            return []
        body = dict(srcaddr=dst, status=0)
        body.update(fields(dev))
        fr = mt.command_frame(mt.ZDO, name, body, mt.AREQ)
        default = [(self.air_delay("zdo"), fr)]
        if self.zdo_hook is not None:
            r = self.zdo_hook(name, dst, p, body, default)
            if r is not None:
                return r
        return default

    def do_5_nodeDescReq(self, p):
        return {"status": 0}, self._zdo("nodeDescRsp", p["dstaddr"], p,
                                        lambda d: dict(nwkaddr=p["nwkaddrofinterest"], **d.node_desc))

    def do_5_powerDescReq(self, p):
        return {"status": 0}, self._zdo("powerDescRsp", p["dstaddr"], p, lambda d: dict(
            nwkaddr=p["nwkaddrofinterest"], currentpowermode_avaipowersrc=d.power[0],
            currentpowersrc_currentpowersrclevel=d.power[1]))

    def do_5_activeEpReq(self, p):
        if p["dstaddr"] == 0 and (self.zdo_hook is None or 0 not in self.devices):
            eps = list(self.eps)
            return {"status": 0}, [(0.01, mt.command_frame(mt.ZDO, "activeEpRsp", dict(
                srcaddr=0, status=0, nwkaddr=0, activeepcount=len(eps), activeeplist=eps), mt.AREQ))]
        return {"status": 0}, self._zdo("activeEpRsp", p["dstaddr"], p, lambda d: dict(
            nwkaddr=p["nwkaddrofinterest"], activeepcount=len(d.endpoints), activeeplist=sorted(d.endpoints)))

    def do_5_simpleDescReq(self, p):
        def f(d):
            e = d.endpoints.get(p["endpoint"])
            if e is None:
                return dict(status=0x82, nwkaddr=p["nwkaddrofinterest"], len=0, endpoint=0, profileid=0, deviceid=0,
                            deviceversion=0, numinclusters=0, inclusterlist=[], numoutclusters=0, outclusterlist=[])
            prof, did, ver, ins, outs = e
            return dict(nwkaddr=p["nwkaddrofinterest"], len=8 + 2 * len(ins) + 2 * len(outs),
                        endpoint=p["endpoint"], profileid=prof, deviceid=did, deviceversion=ver,
                        numinclusters=len(ins), inclusterlist=ins, numoutclusters=len(outs), outclusterlist=outs)
        return {"status": 0}, self._zdo("simpleDescRsp", p["dstaddr"], p, f)

    def do_5_matchDescReq(self, p):
        def f(d):
            hits = [ep for ep, e in sorted(d.endpoints.items()) if e[0] == p["profileid"] and
                    (set(e[3]) & set(p["inclusterlist"]) or set(e[4]) & set(p["outclusterlist"]))]
            return dict(nwkaddr=p["nwkaddrofinterest"], matchlength=len(hits), matchlist=bytes(hits))
        return {"status": 0}, self._zdo("matchDescRsp", p["dstaddr"], p, f)

    def do_5_userDescReq(self, p):
        return {"status": 0}, self._zdo("userDescRsp", p["dstaddr"], p, lambda d: dict(
            nwkaddr=p["nwkaddrofinterest"], userlength=0, userdescriptor=b""))

    def _bind(self, p, name):
        def f(d):
            d.binds.append((name, p))
            return {}
        return {"status": 0}, self._zdo(name, p["dstaddr"], p, f)

    def do_5_bindReq(self, p):
        return self._bind(p, "bindRsp")

    def do_5_unbindReq(self, p):
        return self._bind(p, "unbindRsp")

    def do_5_mgmtLeaveReq(self, p):
        return {"status": 0}, self._zdo("mgmtLeaveRsp", p["dstaddr"], p, lambda d: {})

    def do_5_mgmtLqiReq(self, p):
        def f(d):
            part = d.neighbors[p["startindex"]:p["startindex"] + 2]
            return dict(neighbortableentries=len(d.neighbors), startindex=p["startindex"],
                        neighborlqilistcount=len(part), neighborlqilist=part)
        return {"status": 0}, self._zdo("mgmtLqiRsp", p["dstaddr"], p, f)

    def do_5_mgmtRtgReq(self, p):
        return {"status": 0}, self._zdo("mgmtRtgRsp", p["dstaddr"], p, lambda d: dict(
            routingtableentries=0, startindex=p["startindex"], routingtablelistcount=0, routingtablelist=[]))

    # joining ------------------------------------------------------------------
    def announce_frame(self, dev, src=None):
        return mt.command_frame(mt.ZDO, "endDeviceAnnceInd", dict(
            srcaddr=dev.nwk if src is None else src, nwkaddr=dev.nwk, ieeeaddr=dev.ieee,
            capabilities=self.rng.choice((0x8E, 0x80, 0x88, 0x84, 0x00, 0x0C, 0x0E, 0x40, 0xFF, self.rng.randrange(256)))),
            mt.AREQ)

    def join(self, dev, delay=0.0):
        self.devices = {k: v for k, v in self.devices.items() if v.ieee != dev.ieee}
        self.devices[dev.nwk] = dev
        self.send(self.announce_frame(dev), delay)
