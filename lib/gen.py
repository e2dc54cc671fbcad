"""Random command payloads with boundary bias."""
from . import mtspec as mt

BOUND = {1: (0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF), 2: (0, 1, 0xFF, 0x100, 0x1234, 0x7FFF, 0x8000, 0xFFFC, 0xFFFF),
         4: (0, 1, 0xFFFF, 0x10000, 0x12345678, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF)}


def rint(rng, width):
    return rng.choice(BOUND[width]) if rng.random() < 0.4 else rng.randrange(1 << (8 * width))


def rbytes(rng, n):
    if rng.random() < 0.2:
        return bytes(rng.choice((0xFE, 0, 0xFF, 0xEF)) for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def neighbor(rng):
    return {"extPanId": rbytes(rng, 8), "extAddr": rbytes(rng, 8), "nwkAddr": rint(rng, 2),
            "deviceType": rng.randrange(4), "rxOnWhenIdle": rng.randrange(4), "relationship": rng.randrange(8),
            "permitJoin": rng.randrange(4), "depth": rint(rng, 1), "lqi": rint(rng, 1)}


def fixed_size(params):
    n = 0
    for _, t in params:
        n += mt.INTS.get(t, 0) or (8 if t == "IEEEADDR" else 0) or mt.FIXED_BUF.get(t, 0)
    return n


VAR = ("BUFFER", "LIST_UINT8", "LIST_UINT16", "LIST_ROUTING_TABLE", "LIST_NEIGHBOR_LQI")


def item_size(t):
    return {"BUFFER": 1, "LIST_UINT8": 1, "LIST_UINT16": 2, "LIST_ROUTING_TABLE": 5, "LIST_NEIGHBOR_LQI": 22}[t]


def payload(params, rng, room=250, lengths="prev", size=None):
    """lengths='prev': the parameter before a variable one is its length (what a
    decoder needs).  room: largest total size.  size: wanted size of the last variable part."""
    out, left = {}, room - fixed_size(params)
    params = list(params)
    for i, (n, t) in enumerate(params):
        nxt = params[i + 1][1] if i + 1 < len(params) else ""
        if n in out:
            pass
        if t in mt.INTS and nxt in VAR:
            m = max(0, left // item_size(nxt))
            m = min(m, (1 << (8 * mt.INTS[t])) - 1)
            k = size if size is not None and size <= m else min(m, rng.choice((0, 0, 1, 2, 3, 5, 16, 32, m, rng.randrange(m + 1))))
            if lengths == "prev" or rng.random() < 0.7:
                v = k
            else:
                v = rint(rng, mt.INTS[t])
            out[n] = v
            left -= k * item_size(nxt)
            nn = params[i + 1][0]
            out[nn] = _var(nxt, k, rng)
        elif t in VAR:
            if n not in out:
                m = max(0, left // item_size(t))
                k = min(m, rng.choice((0, 1, 8, 16, m, rng.randrange(m + 1))))
                left -= k * item_size(t)
                out[n] = _var(t, k, rng)
        elif t in ("UINT8", "UINT16", "UINT32"):
            out[n] = rint(rng, mt.INTS[t])
        elif t == "INT8":
            out[n] = rng.choice((-128, -1, 0, 1, 127, rng.randrange(-128, 128)))
        elif t == "IEEEADDR":
            out[n] = rbytes(rng, 8)
        elif t in mt.FIXED_BUF:
            out[n] = rbytes(rng, mt.FIXED_BUF[t])
        else:
            raise AssertionError(t)
        if n.endswith("addrmode") and t == "UINT8":
            out[n] = rng.choice((0, 1, 2, 3, 15))
    return {n: out[n] for n, _ in params}


def _var(t, k, rng):
    if t == "BUFFER":
        return rbytes(rng, k)
    if t == "LIST_UINT8":
        return list(rbytes(rng, k))
    if t == "LIST_UINT16":
        return [rint(rng, 2) for _ in range(k)]
    if t == "LIST_ROUTING_TABLE":
        return [{"destAddr": rint(rng, 2), "status": rint(rng, 1), "nextHop": rint(rng, 2)} for _ in range(k)]
    return [neighbor(rng) for _ in range(k)]


def writable(params):
    return params is not None and not any(t in mt.NOT_WRITABLE for _, t in params)


def readable(params):
    """All types implemented and every variable part preceded by its length."""
    if params is None or any(t in mt.NOT_IMPLEMENTED for _, t in params):
        return False
    prev = ""
    for _, t in params:
        if t in VAR and prev not in ("UINT8", "UINT16", "UINT32"):
            return False
        prev = t
    return True


REQS = [c for c in mt.CMDS if c.type == mt.SREQ and writable(c.req)]
RSPS = [c for c in mt.CMDS if c.type == mt.SREQ and c.rsp is not None and readable(c.rsp)]
AREQS = [c for c in mt.CMDS if c.type == mt.AREQ and readable(c.req)]
# commands of which both the request and the response can be exercised
CALLS = [c for c in REQS if c.rsp is not None and readable(c.rsp)]
# commands the adapter does not answer
PLAIN = [c for c in mt.CMDS if c.type == mt.AREQ and writable(c.req) and c.name not in ("resetReq", "systemReset")]


def response_for(c, rng, room=250, ok=True):
    p = payload(c.rsp, rng, room)
    if ok and "status" in p:
        p["status"] = 0
    return p


def srsp(c, p):
    return mt.frame(mt.SRSP, c.subsys, c.id, mt.encode(c.rsp, p))


def areq(c, p):
    return mt.frame(mt.AREQ, c.subsys, c.id, mt.encode(c.req, p))


def call(api, c, p, **kw):
    from zigpy_cc.types import Subsystem
    return api.request(Subsystem(c.subsys), c.name, p, **kw)


def lively(p, params, rng):
    """The same values in the Python types callers use (EUI64, lists, enums)."""
    import zigpy.types as zt
    out = {}
    for n, t in params:
        v = p[n]
        if t == "IEEEADDR":
            k = rng.randrange(4)
            v = (zt.EUI64(v) if k == 0 else list(v) if k == 1 else int.from_bytes(v, "little") if k == 2 else v)
        elif t == "UINT16" and rng.random() < 0.3:
            v = zt.uint16_t(v)
        elif t == "UINT8" and rng.random() < 0.3:
            v = zt.uint8_t(v)
        elif t == "LIST_UINT16" and rng.random() < 0.3:
            v = [zt.uint16_t(x) for x in v]
        elif t == "LIST_UINT8" and rng.random() < 0.3:
            v = bytes(v)
        elif t == "BUFFER" and rng.random() < 0.2:
            v = bytes(v)
        out[n] = v
    # callers build their dict in any order
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


def _long_or_short(rng):
    return rng.choice((bytes, list))(rbytes(rng, rng.choice((1, 2, 7, 9, 16))))


def break_value(c, p, rng):
    """-> (payload that does not fit, what) or None: one value of one parameter."""
    cand = [(n, t) for n, t in c.req if t in ("UINT8", "UINT16", "UINT32", "IEEEADDR", "LIST_UINT8", "LIST_UINT16",
                                              "LIST_NEIGHBOR_LQI", "BUFFER")]
    if not cand:
        return None
    n, t = rng.choice(cand)
    q = dict(p)
    if t in mt.INTS:
        top = 1 << (8 * mt.INTS[t])
        q[n] = rng.choice((-1, top, top + 1, top * 2, -top, top + (p[n] if isinstance(p[n], int) else 0), 1 << 70,
                           None))
    elif t == "IEEEADDR":
        q[n] = rng.choice((-1, 1 << 64, (1 << 64) + 5, [1, 2, 3, 256, 5, 6, 7, 8], [1, 2, 3, -1, 5, 6, 7, 8],
                           None, _long_or_short(rng)))
    elif t in ("LIST_UINT8", "LIST_UINT16"):
        top = 256 if t == "LIST_UINT8" else 65536
        v = list(p[n])
        v.insert(rng.randrange(len(v) + 1), rng.choice((top, -1, top + 7, 1 << 40, None)))
        q[n] = v
    elif t == "BUFFER":
        q[n] = rng.choice((3, 0, [1, 256], "text", None))
    else:
        v = neighbor(rng)
        f, x = rng.choice((("nwkAddr", 65536), ("nwkAddr", -1), ("depth", 256), ("lqi", 300), ("lqi", -1),
                           ("deviceType", 4), ("deviceType", 256 * 16), ("rxOnWhenIdle", 4), ("relationship", 8),
                           ("relationship", -1), ("permitJoin", 256), ("extPanId", _long_or_short(rng)),
                           ("extAddr", _long_or_short(rng))))
        v[f] = x
        q[n] = list(p[n]) + [v]
        return q, "%s of a neighbour" % f
    return q, "%s %s" % (n, t)
