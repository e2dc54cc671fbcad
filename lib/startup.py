"""Prior adapter states, configurations and the startup postcondition (C17, C18, C19, C24)."""
from . import port, rig, znp
from .core import Violation

FW = ("Z-Stack 1.2", "Z-Stack 3.x.0", "Z-Stack 3.0.x")
KINDS = ("blank", "other", "same", "one", "random", "nopan")
ITEMS = {"channels": znp.NV_CHAN, "pan": znp.NV_PAN, "extpan": znp.NV_EXTPAN, "key": znp.NV_KEY,
         "keydist": znp.NV_KEYDIST, "marker": None}


def config(rng):
    """A network configuration as the user gives it."""
    def maybe(f, p=0.25):
        return None if rng.random() < p else f()
    return {
        "channels": maybe(lambda: sorted(rng.sample(range(11, 27), rng.choice((1, 1, 2, 3, 16))))),
        "pan": maybe(lambda: rng.choice((0, 1, 0xFF, 0x100, 0x1A62, 0x3FFF, 0xFFFE, 0xFFFF, rng.randrange(0xFFFE),
                                         rng.randrange(0xFFFE)))),
        "extpan": maybe(lambda: bytes(rng.randrange(256) for _ in range(8)) if rng.random() < 0.8 else bytes(8)),
        "key": maybe(lambda: bytes(rng.randrange(256) for _ in range(16)) if rng.random() < 0.8 else bytes(16)),
    }


def marker(product):
    return znp.MARKER1 if product == 0 else znp.MARKER3


def configured(exp, product):
    """Non-volatile memory of an adapter set up with a configuration."""
    nv = znp.default_nv()
    nv.update({znp.NV_CHAN: exp["channels"], znp.NV_PAN: exp["pan"].to_bytes(2, "little"), znp.NV_EXTPAN: exp["extpan"],
               znp.NV_KEY: exp["key"], znp.NV_KEYDIST: b"\0", znp.NV_LOGICAL: b"\0", znp.NV_DIRECTCB: b"\x01",
               marker(product): b"\x55"})
    if product == 0:
        nv[znp.NV_TCLK] = znp.TCLK
    return nv


def _other(rng, v):
    while True:
        w = bytes(rng.randrange(256) for _ in v)
        k = rng.random()
        if k < 0.2:
            # the same bytes in another order
            w = v[1:] + v[:1] if rng.random() < 0.4 else v[::-1] if rng.random() < 0.5 else bytes(rng.sample(list(v), len(v)))
        elif k < 0.7:
            # one byte, one bit
            w = bytearray(v)
            w[rng.randrange(len(v))] ^= 1 << rng.randrange(8)
            w = bytes(w)
        if w != v:
            return w


def prior(rng, product, exp, kind=None):
    """-> (kind, detail, nv)"""
    kind = kind or rng.choice(KINDS)
    detail = None
    if kind == "blank":
        nv = znp.default_nv()
    elif kind == "other":
        nv = configured(rig.expected_net(config(rng)), product)
    elif kind == "same":
        nv = configured(exp, product)
    elif kind == "one":
        nv = configured(exp, product)
        detail = rng.choice(sorted(ITEMS))
        if detail == "marker":
            if rng.random() < 0.5:
                del nv[marker(product)]
            else:
                nv[marker(product)] = bytes([rng.choice((0, 0x54, 0xAA, 0xFF))])
        else:
            i = ITEMS[detail]
            nv[i] = _other(rng, nv[i])
            if detail == "pan" and nv[i] == b"\xff\xff":
                nv[i] = b"\xfe\xff"
                if nv[i] == exp["pan"].to_bytes(2, "little"):
                    nv[i] = b"\x34\x12"
    elif kind == "nopan":
        nv = configured(exp, product)
        nv[znp.NV_PAN] = b"\xff\xff"
        if rng.random() < 0.6:
            nv[znp.NV_EXTPAN] = bytes(rng.randrange(256) for _ in range(8))
    else:
        nv = {k: bytes(rng.randrange(256) for _ in v) for k, v in znp.default_nv().items()}
        nv[znp.NV_STARTUP] = b"\0"
        for m in (znp.MARKER1, znp.MARKER3):
            if rng.random() < 0.5:
                nv[m] = bytes([rng.choice((0, 1, 0x54, 0xFF))])
    if rng.random() < 0.2:
        # the marker of the other firmware generation means nothing
        nv.setdefault(znp.MARKER3 if product == 0 else znp.MARKER1, bytes([rng.choice((0, 0x55))]))
    return kind, detail, nv


def keeps(product, exp, nv):
    """Whether the adapter already holds the configured network (or, on Z-Stack 3,
    was configured but never given a PAN id)."""
    if nv.get(marker(product)) != b"\x55" or nv[znp.NV_CHAN] != exp["channels"] or nv[znp.NV_KEYDIST] != b"\0" \
            or nv[znp.NV_KEY] != exp["key"]:
        return False
    if product != 0 and nv[znp.NV_PAN] == b"\xff\xff":
        return True
    return nv[znp.NV_PAN] == exp["pan"].to_bytes(2, "little") and nv[znp.NV_EXTPAN] == exp["extpan"]


def place(z, rng, how=None):
    """Puts the adapter in a running state."""
    how = how or rng.choice(("running", "saved", "off", "half"))
    if how in ("running", "saved"):
        z.form()
    if how == "running":
        z.devstate = 9
    elif how == "half":
        z.devstate = rng.choice((0, 1, 2, 8, 10))
    return how


def adapter(loop, rng, product, nv, **kw):
    world = port.World(loop)
    z = znp.Znp(world, product=product, rng=rng, nv=nv, ieee=bytes(rng.randrange(256) for _ in range(8)), **kw)
    z.no_sapi = True
    z.assoc = [rng.randrange(1, 0xFFF8) for _ in range(rng.choice((0, 0, 0, 1, 3, 20, 40, 90)))]
    world.attach(rig.PATH, z)
    return world, z


def variations(z, rng):
    """Correct adapters differ in timing."""
    d = rng.choice((0.0, 0.002, 0.05, 0.5))
    z.delay = lambda cmd: d * rng.random()
    x = rng.random()

    def policy(cmd, n):
        if cmd.name in ("startupFromApp", "bdbStartCommissioning", "activeEpReq"):
            k = rng.choice((None, "glue", "early")) if x < 0.5 else None
            if k:
                return {k: True}
        return None

    z.policy = policy


def postcondition(z, app, product, exp, nv0=None):
    """Problems with what a successful startup left behind."""
    out = []
    kept_random = nv0 is not None and product != 0 and keeps(product, exp, nv0) and nv0[znp.NV_PAN] == b"\xff\xff"
    for p in z.matches(exp):
        if kept_random and p.split()[2] in (str(znp.NV_PAN), str(znp.NV_EXTPAN)):
            continue
        out.append(p)
    if kept_random and z.nv[znp.NV_PAN] != b"\xff\xff":
        out.append("the random PAN id was not kept")
    if z.nv.get(marker(product)) != b"\x55":
        out.append("the configured marker is %r" % z.nv.get(marker(product)))
    if product == 0 and z.nv[znp.NV_TCLK] != znp.TCLK:
        out.append("the trust centre link key is %s" % z.nv[znp.NV_TCLK].hex())
    if z.devstate != 9:
        out.append("the adapter is in state %d, not running as coordinator" % z.devstate)
    if z.nv[znp.NV_STARTUP] != b"\0":
        out.append("startup option %s is pending" % z.nv[znp.NV_STARTUP].hex())
    if z.nib is None:
        out.append("no network was formed")
    if out:
        return out
    if app.ieee is None or bytes(app.ieee) != z.ieee or int(app.nwk) != 0:
        out.append("coordinator address %r / %r" % (app.ieee, app.nwk))
    try:
        c = [d for d in app.devices.values() if bytes(d.ieee) == z.ieee]
    except TypeError as e:
        return out + ["the device table is broken: %s" % e]
    if len(c) != 1 or int(c[0].nwk) != 0:
        out.append("the coordinator is not in the device table")
    return out


def network(z, exp):
    """Problems with the parameters of the network just formed."""
    out = []
    if exp["pan"] != 0xFFFF and z.nib["pan"] != exp["pan"]:
        out.append("PAN id 0x%04x" % z.nib["pan"])
    for k in ("extpan", "key", "channels"):
        if z.nib[k] != exp[k]:
            out.append("%s %s" % (k, z.nib[k].hex()))
    return ["the network was formed with %s" % p for p in out]


def orders(z):
    if z.violations:
        raise Violation("the adapter was driven wrongly: %s" % z.violations[0], all=z.violations[:5])
