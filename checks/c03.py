"""C03: parameters survive the wire in both directions, for every command."""
import asyncio
import copy

from lib import gen, mtspec as mt, rig, vloop
from lib.adapter import Echo
from lib.core import Violation

PROP = "C03"
CASES = {"quick": 2400, "thorough": 12000}
RULE = ("A case takes the next 8 callable commands and the next 6 notifications of the command table with "
        "boundary-biased random parameters, some of them twice with at most one value changed, and 2 unanswered commands; each command goes out through the api and is answered with random "
        "response values, each notification arrives unasked, some longer than documented. Distinct = distinct (command, encoded parameters, "
        "response); non-trivial = at least one parameter.")
REQUIRED = {"requests_checked": 1500, "responses_checked": 1500, "notifications_checked": 1000,
            "distinct_commands_sum": 400, "lists_and_buffers": 500, "unanswered_commands": 1500,
            "longer_than_documented": 5000, "undefined_modes": 1500}
ASSUMPTIONS = ["the command table lib/mtspec.txt, written down independently from the pinned commit's documentation",
               "parameters named *addrmode carry one of the five defined modes (with others the notification may be dropped: C05)"]

NOTIFS = gen.AREQS
MODES = [c for c in NOTIFS if any(n.endswith("addrmode") for n, _ in c.req)]


def make_case(i, rng, ctx):
    calls = []
    for k in range(8):
        c = gen.CALLS[(i * 8 + k) % len(gen.CALLS)]
        p = gen.payload(c.req, rng, rng.choice((30, 120, 250)), lengths="any")
        r = gen.response_for(c, rng, rng.choice((30, 120, 250)), ok=True)
        exp = None
        if "status" in r and rng.random() < 0.3:
            r["status"] = rng.randrange(256)
            exp = [r["status"]]
        calls.append((c, p, r, exp))
    for k in range(2):
        c = gen.PLAIN[(i * 2 + k) % len(gen.PLAIN)]
        calls.append((c, gen.payload(c.req, rng, rng.choice((30, 120, 250)), lengths="any"), None, None))
    rng.shuffle(calls)
    notifs = []
    for k in range(6):
        c = NOTIFS[(i * 6 + k) % len(NOTIFS)]
        notifs.append((c, gen.payload(c.req, rng, rng.choice((30, 120, 250)))))
    # the same again, or the same but for one value
    for k, (c, p, r, exp) in enumerate(list(calls)):
        if rng.random() < 0.4:
            q = _nearly(c.req, p, rng)
            if r is not None:
                r = gen.response_for(c, rng, 60) if rng.random() < 0.5 else _nearly(c.rsp, r, rng, keep=("status",))
            calls.insert(rng.randrange(len(calls) + 1), (c, q, r, exp if r and "status" in r and exp and r["status"] in exp
                                                         else [r["status"]] if r and "status" in r else None))
    for k, (c, p) in enumerate(list(notifs)):
        if rng.random() < 0.4:
            notifs.insert(rng.randrange(len(notifs) + 1), (c, _nearly(c.req, p, rng)))
    return {"show": [(repr(c), p, r) for c, p, r, _ in calls], "notifs": [(repr(c), p) for c, p in notifs],
            "_c": calls, "_n": notifs}


def _nearly(params, p, rng, keep=()):
    """p with one value changed, lengths kept (or nothing changed)."""
    q = {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}
    lens = {params[i][0] for i in range(len(params) - 1) if params[i + 1][1] in gen.VAR}
    names = [(n, t) for n, t in params if n not in lens and n not in keep]
    if not names or rng.random() < 0.2:
        return q
    n, t = rng.choice((names[-1], rng.choice(names)))
    v = q[n]
    if isinstance(v, int):
        lo, hi = (-128, 127) if t == "INT8" else (0, (1 << 8 * mt.INTS[t]) - 1)
        if n.endswith("addrmode"):
            q[n] = rng.choice((0, 1, 2, 3, 15))
        else:
            q[n] = rng.choice((min(hi, v + 1), max(lo, v - 1), v ^ (1 << rng.randrange(7))))
    elif isinstance(v, (bytes, bytearray)):
        if v:
            b = bytearray(v)
            b[rng.choice((0, len(b) - 1, rng.randrange(len(b))))] ^= 1 << rng.randrange(8)
            q[n] = bytes(b)
    elif v:
        k = rng.choice((0, len(v) - 1, rng.randrange(len(v))))
        if isinstance(v[k], int):
            v[k] ^= 1 << rng.randrange(7)
        else:
            v[k] = dict(v[k])
            f = rng.choice([f for f in v[k] if isinstance(v[k][f], int)])
            v[k][f] ^= 1
    return q


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


def _diff(what, got, want):
    if set(got) != set(want):
        raise Violation("%s: parameters %s, expected %s" % (what, sorted(got), sorted(want)))
    for k in want:
        if got[k] != want[k] or isinstance(got[k], bool):
            raise Violation("%s: parameter %s is %r, expected %r" % (what, k, got[k], want[k]))


async def _run(loop, case, rng, ctx):
    cur = {}

    def script(typ, c, data, n):
        cur["frame"] = (typ, c, data)
        if c is cur["c"] and cur["r"] is not None:
            return [(0.001, mt.frame(mt.SRSP, c.subsys, c.id, mt.encode(c.rsp, cur["r"]) + cur["tail"]))]

    def tail(params, p):
        # newer firmware appends fields of its own
        n = 250 - len(mt.encode(params, p))
        if n <= 0 or rng.random() < 0.75:
            return b""
        ctx.count("longer_than_documented")
        return gen.rbytes(rng, rng.randint(1, min(n, 9)))

    world, ad, api, rec = await rig.api_rig(loop, lambda w: Echo(w, script))
    names = set()
    for c, p, r, exp in case["_c"]:
        cur.clear()
        cur.update(c=c, r=r, tail=tail(c.rsp, r) if r is not None else b"")
        arg = gen.lively(p, c.req, rng)
        was = [(k, type(v), copy.deepcopy(v)) for k, v in arg.items()]
        kind, val = await rig.outcome(gen.call(api, c, arg, expected_status=exp), 60)
        if r is None:
            await asyncio.sleep(0.01)
        if [(k, type(v), v) for k, v in arg.items()] != was:
            raise Violation("%r: the caller's parameters were modified: %r, given %r" % (c, arg, was))
        want = mt.encode(c.req, p)
        f = cur.get("frame")
        if f is None:
            raise Violation("%r was not sent: %s %r" % (c, kind, val), payload=p)
        if f[1] is not c or f[0] != c.type:
            raise Violation("%r went out as type %d command %r" % (c, f[0], f[1]))
        if f[2] != want:
            raise Violation("%r: payload on the wire %s, expected %s for %r" % (c, f[2].hex(), want.hex(), p))
        ctx.count("requests_checked")
        if r is None:
            if kind != "ok":
                raise Violation("%r could not be sent: %r" % (c, val))
            ctx.count("unanswered_commands")
            ctx.sig(repr(c), want)
            names.add(repr(c))
            continue
        if kind != "ok":
            raise Violation("%r: the response %r was not returned: %r" % (c, r, val))
        _diff("response to %r" % c, rig.norm_payload(val.payload), r)
        ctx.count("responses_checked")
        if p or r:
            ctx.sig(repr(c), want, mt.encode(c.rsp, r))
        names.add(repr(c))
        if any(t in gen.VAR for _, t in c.req + c.rsp):
            ctx.count("lists_and_buffers")
    for c, p in case["_n"]:
        del rec.got[:]
        ad.send_now(mt.frame(mt.AREQ, c.subsys, c.id, mt.encode(c.req, p) + tail(c.req, p)))
        await asyncio.sleep(0.01)
        if len(rec.got) != 1:
            raise Violation("notification %r (%r): %d messages delivered" % (c, p, len(rec.got)))
        _, t, s, name, got = rec.got[0]
        if (t, s, name) != (mt.AREQ, c.subsys, c.name):
            raise Violation("notification %r delivered as %r" % (c, (t, s, name)))
        _diff("notification %r" % c, got, p)
        ctx.count("notifications_checked")
        names.add(repr(c))
        ctx.sig(repr(c), mt.encode(c.req, p))
    # an address mode outside the five defined ones: as it is, or not at all
    c = rng.choice(MODES)
    p = gen.payload(c.req, rng, 60)
    p[rng.choice([n for n, _ in c.req if n.endswith("addrmode")])] = rng.choice([m for m in range(256) if m not in (0, 1, 2, 3, 15)])
    del rec.got[:]
    ad.send_now(mt.frame(mt.AREQ, c.subsys, c.id, mt.encode(c.req, p)))
    await asyncio.sleep(0.01)
    for _, t, s, name, got in rec.got:
        _diff("notification %r" % c, got, p)
    ctx.count("undefined_modes")
    ctx.count("distinct_commands_sum", len(names))
    rig.check_wire(ad)
    rig.check_escaped(loop)
    ctx.sample(case["show"][0])
    api.close()
    await asyncio.sleep(0)
