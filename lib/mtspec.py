"""Independent model of the adapter protocol (MT frames and parameters).

Written from the protocol, not from the code: framing is SOF 0xFE, length, cmd0 =
type<<5|subsystem, cmd1, data, XOR checksum; integers are little endian; an IEEE
address is 8 bytes, least significant first; a variable buffer or list takes its
length from the parameter before it.  The command table mtspec.txt is the
documented table as of the pinned commit.
"""
import os

SOF = 0xFE
POLL, SREQ, AREQ, SRSP = 0, 1, 2, 3
TYPES = {"POLL": 0, "SREQ": 1, "AREQ": 2, "SRSP": 3}
SYS, MAC, NWK, AF, ZDO, SAPI, UTIL, DEBUG, APP, APP_CNF, GP = 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 21
SUBSYSTEMS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 21)

FIXED_BUF = {"BUFFER8": 8, "BUFFER16": 16, "BUFFER18": 18, "BUFFER32": 32,
             "BUFFER42": 42, "BUFFER100": 100}
INTS = {"UINT8": 1, "UINT16": 2, "UINT32": 4, "INT8": 1}
NOT_IMPLEMENTED = {"LIST_BIND_TABLE", "LIST_NETWORK", "LIST_ASSOC_DEV"}
# types the code documents as not writable (raises its TODO)
NOT_WRITABLE = NOT_IMPLEMENTED | set(FIXED_BUF) | {"INT8"}


class Cmd:
    __slots__ = ("subsys", "id", "type", "name", "req", "rsp")

    def __init__(self, subsys, id, type, name, req, rsp):
        self.subsys, self.id, self.type, self.name = subsys, id, type, name
        self.req, self.rsp = req, rsp

    def __repr__(self):
        return "%d/%s" % (self.subsys, self.name)


def _params(text):
    out = []
    for p in text.split():
        n, t = p.split(":")
        out.append((n, t))
    return tuple(out)


def _load():
    cmds, sub = [], None
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mtspec.txt")) as f:
        for line in f:
            line = line.rstrip("\n")
            if not line.strip():
                continue
            if line.startswith("["):
                sub = int(line.strip("[]").split()[1])
                continue
            parts = line.split("|")
            head = parts[0].split()
            req = _params(parts[1]) if len(parts) > 1 else ()
            rsp = _params(parts[2]) if len(parts) > 2 else None
            cmds.append(Cmd(sub, int(head[0]), TYPES[head[1]], head[2], req, rsp))
    return cmds


CMDS = _load()
BY_NAME = {(c.subsys, c.name): c for c in CMDS}
BY_ID = {(c.subsys, c.id): c for c in CMDS}


class Short(Exception):
    pass


# ---------------------------------------------------------------- values
def encode_value(typ, v):
    if typ in INTS:
        return int(v).to_bytes(INTS[typ], "little", signed=(typ == "INT8"))
    if typ == "IEEEADDR":
        if isinstance(v, int):
            return v.to_bytes(8, "little")
        b = bytes(v)
        assert len(b) == 8
        return b
    if typ.startswith("BUFFER"):
        return bytes(v)
    if typ == "LIST_UINT8":
        return bytes(v)
    if typ == "LIST_UINT16":
        return b"".join(int(x).to_bytes(2, "little") for x in v)
    if typ == "LIST_ROUTING_TABLE":
        return b"".join(encode_route(n) for n in v)
    if typ == "LIST_NEIGHBOR_LQI":
        return b"".join(encode_neighbor(n) for n in v)
    if typ == "RAW":
        return bytes(v)
    raise AssertionError(typ)


def encode_route(n):
    """Routing table record: 5 bytes."""
    return int(n["destAddr"]).to_bytes(2, "little") + bytes([n["status"]]) + int(n["nextHop"]).to_bytes(2, "little")


def encode_neighbor(n):
    """Neighbour record as in the LQI table on the wire: 22 bytes."""
    return (bytes(n["extPanId"]) + bytes(n["extAddr"]) + int(n["nwkAddr"]).to_bytes(2, "little")
            + bytes([(n["deviceType"] & 3) | (n["rxOnWhenIdle"] & 3) << 2 | (n["relationship"] & 7) << 4,
                     n["permitJoin"] & 3, n["depth"], n["lqi"]]))


def encode(params, payload):
    return b"".join(encode_value(t, payload[n]) for n, t in params)


def decode(params, data):
    """-> (dict, rest).  Raises Short when the data ends early."""
    pos, out, prev = 0, {}, None

    def take(n):
        nonlocal pos
        if pos + n > len(data):
            raise Short()
        r = data[pos:pos + n]
        pos += n
        return r

    for n, t in params:
        if t in INTS:
            v = int.from_bytes(take(INTS[t]), "little", signed=(t == "INT8"))
        elif t == "IEEEADDR":
            v = bytes(take(8))
        elif t in FIXED_BUF:
            v = bytes(take(FIXED_BUF[t]))
        elif t == "BUFFER":
            k = prev
            v = bytes(take(k))
        elif t == "LIST_UINT8":
            v = list(take(prev))
        elif t == "LIST_UINT16":
            v = [int.from_bytes(take(2), "little") for _ in range(prev)]
        elif t == "LIST_ROUTING_TABLE":
            v = []
            for _ in range(prev):
                b = take(5)
                v.append({"destAddr": b[0] | b[1] << 8, "status": b[2], "nextHop": b[3] | b[4] << 8})
        elif t == "LIST_NEIGHBOR_LQI":
            v = []
            for _ in range(prev):
                b = take(22)
                v.append({"extPanId": bytes(b[0:8]), "extAddr": bytes(b[8:16]),
                          "nwkAddr": b[16] | b[17] << 8, "deviceType": b[18] & 3,
                          "rxOnWhenIdle": b[18] >> 2 & 3, "relationship": b[18] >> 4 & 7,
                          "permitJoin": b[19] & 3, "depth": b[20], "lqi": b[21]})
        else:
            raise AssertionError(t)
        out[n] = v
        prev = v
    return out, data[pos:]


# ---------------------------------------------------------------- frames
def frame(typ, subsys, cmd, data=b""):
    body = bytes([len(data), (typ << 5) | subsys, cmd]) + bytes(data)
    fcs = 0
    for b in body:
        fcs ^= b
    return bytes([SOF]) + body + bytes([fcs])


def command_frame(subsys, name, payload=None, typ=None):
    """Frame the adapter would send (SRSP for SREQ commands, else AREQ)."""
    c = BY_NAME[(subsys, name)]
    if typ is None:
        typ = SRSP if c.type == SREQ else AREQ
    params = c.rsp if typ == SRSP else c.req
    return frame(typ, subsys, c.id, encode(params, payload or {}))


class FrameReader:
    """Strict parser for what the host writes: any deviation is an error."""

    def __init__(self):
        self.buf = bytearray()
        self.errors = []

    def push(self, data):
        self.buf += data
        out = []
        while self.buf:
            if self.buf[0] != SOF:
                self.errors.append("byte 0x%02x where a frame start is required (rest %s)"
                                   % (self.buf[0], bytes(self.buf[:40]).hex()))
                # resynchronise so that one error is reported once
                i = self.buf.find(bytes([SOF]))
                if i < 0:
                    self.buf.clear()
                    break
                del self.buf[:i]
                continue
            if len(self.buf) < 5 or len(self.buf) < self.buf[1] + 5:
                break
            n = self.buf[1] + 5
            f = bytes(self.buf[:n])
            del self.buf[:n]
            x = 0
            for b in f[1:-1]:
                x ^= b
            if x != f[-1]:
                self.errors.append("bad checksum in frame %s" % f.hex())
                continue
            if f[1] > 250:
                self.errors.append("frame longer than 250 bytes of data")
            out.append((f[2] >> 5, f[2] & 0x1F, f[3], f[4:-1]))
        return out
