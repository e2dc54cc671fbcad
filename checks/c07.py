"""C07: every command returns the adapter's answer to that very command."""
import asyncio

from lib import gen, mtspec as mt, rig, traffic, vloop
from lib.core import Violation

PROP = "C07"
CASES = {"quick": 3000, "thorough": 25000}
RULE = ("A case is 1-12 tasks issuing up to 40 commands, many of the same kind, each answered with unique random "
        "values; other traffic (notifications, request-shaped frames, same-named and other responses, notifications "
        "carrying the command's own id) arrives before, glued before, glued after the answer. Distinct = distinct "
        "history; non-trivial = a decoy arrived while a command was outstanding.")
REQUIRED = {"answers_matched": 5000, "decoys": 4000, "decoys_same_id": 300, "decoys_same_name": 50, "expected_errors": 200,
            "never_answered": 1000, "crowds": 20}

TWINS = {}
for _c in gen.CALLS:
    for _d in gen.RSPS:
        if _d.name == _c.name and _d.subsys != _c.subsys:
            TWINS[_c] = _d


def decoy(c, rng):
    """-> (frame, (type, subsys, name, payload), kind): never an answer to c."""
    k = rng.random()
    if k < 0.3 or (k < 0.45 and not gen.readable(c.req)):
        a = rng.choice([a for a in gen.AREQS if a.name != "resetInd"])
        p = gen.payload(a.req, rng, 60)
        return gen.areq(a, p), (mt.AREQ, a.subsys, a.name, p), "notification"
    if k < 0.45:
        typ = rng.choice((mt.AREQ, mt.SREQ, 0))    # same command, request-shaped
        p = gen.payload(c.req, rng, 60)
        return mt.frame(typ, c.subsys, c.id, mt.encode(c.req, p)), (typ, c.subsys, c.name, p), "same_id"
    if k < 0.6 and c in TWINS:
        d = TWINS[c]
        p = gen.payload(d.rsp, rng, 60)
        return gen.srsp(d, p), (mt.SRSP, d.subsys, d.name, p), "same_name"
    while True:
        d = rng.choice([x for x in gen.RSPS if x.subsys == c.subsys]) if rng.random() < 0.5 else rng.choice(gen.RSPS)
        if d is not c and not (d.subsys == c.subsys and d.name == c.name):
            break
    p = gen.payload(d.rsp, rng, 60)
    return gen.srsp(d, p), (mt.SRSP, d.subsys, d.name, p), "other_response"


def make_case(i, rng, ctx):
    crowd = i % 100 == 1           # hundreds of callers at once
    n = rng.choice((150, 500, 1200)) if crowd else rng.choice((1, 5, 15, 40))
    kinds = rng.sample(gen.CALLS, rng.choice((1, 2, 5, 20)))
    if rng.random() < 0.4:
        kinds += [c for c in TWINS]
    plans = []
    for k in range(n):
        c = rng.choice(kinds)
        p = traffic.Plan(c, gen.payload(c.req, rng, 40), rsp=gen.response_for(c, rng, 60))
        if "status" in p.rsp:
            r = rng.random()
            if r < 0.2:
                p.rsp["status"] = rng.randrange(256)
                p.expected = rng.choice((None, [0], [p.rsp["status"]], [0, p.rsp["status"]], [1, 9]))
        p.delay = rng.choice((0.0, 0.001, 0.02, 0.5))
        if rng.random() < (0.003 if crowd else 0.04):
            # never answered; the caller may give up earlier
            p.delay = None
            p.cancel = rng.choice((None, None, 0.0005, 0.3, 3.0))
        p.decoys = []
        for _ in range(rng.choice((0, 0, 1, 1, 3))):
            f, want, kind = decoy(c, rng)
            where = rng.choice(("before", "glue_before", "glue_after")) if p.delay is not None else "before"
            p.decoys.append((where, f, want, kind))
        p.before = [(0, f) for w, f, _, _ in p.decoys if w == "before"]
        p.glue_before = b"".join(f for w, f, _, _ in p.decoys if w == "glue_before")
        p.glue_after = b"".join(f for w, f, _, _ in p.decoys if w == "glue_after")
        p.pause = 0 if crowd else rng.choice((0, 0, 0.001, 0.1))
        plans.append(p)
    tasks = traffic.spread(plans, rng, 3 * n if crowd else rng.choice((1, 3, 12)))
    return {"crowd": crowd, "tasks": [[dict(p.show(), decoys=[(w, k, repr(x[:3])) for w, _, x, k in p.decoys]) for p in t] for t in tasks],
            "_t": tasks}


def run_case(case, rng, ctx):
    ctx.count("crowds", case["crowd"])
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


async def _run(loop, case, rng, ctx):
    if rig.AGE:
        world, ad, api, _ = await rig.used_api_rig(loop, rng, traffic.Responder)
        rec = rig.RecorderApp(loop)
        api.set_application(rec)
    else:
        world, ad, api, rec = await rig.api_rig(loop, traffic.Responder)
    order = await traffic.drive(loop, ad, api, case["_t"], rng)
    await asyncio.sleep(0.1)
    rig.check_escaped(loop)
    delivered = []
    for p in sorted(order, key=lambda p: p.t_write if p.t_write is not None else 1e9):
        if p.t_write is None and p.cancel is None:
            raise Violation("%r was never sent: %s %r" % (p.c, p.outcome, p.value), trace=traffic.lines(order))
        if p.delay is None:
            if p.outcome == "ok":
                raise Violation("%r was never answered and received %r" % (p.c, p.value), trace=traffic.lines(order))
            if p.t_write is not None:
                delivered += [x for _, _, x, _ in p.decoys]
            ctx.count("never_answered")
            continue
        exp = p.expected if p.expected is not None else [0]
        if "status" in p.rsp and p.rsp["status"] not in exp:
            if p.outcome != "error" or getattr(p.value, "status", None) != p.rsp["status"]:
                raise Violation("%r was answered with status %d and ended with %s %r" % (
                    p.c, p.rsp["status"], p.outcome, p.value), trace=traffic.lines(order))
            ctx.count("expected_errors")
        else:
            if p.outcome != "ok":
                raise Violation("%r was answered and ended with %s %r" % (p.c, p.outcome, p.value),
                                trace=traffic.lines(order))
            v = p.value
            got = (int(v.command_type), int(v.subsystem), v.command, rig.norm_payload(v.payload))
            if got != (mt.SRSP, p.c.subsys, p.c.name, p.rsp):
                raise Violation("%r received %r, the adapter answered %r" % (p.c, got, p.rsp),
                                trace=traffic.lines(order), decoys=[d[2] for d in p.decoys])
        ctx.count("answers_matched")
        d = {w: [x for ww, _, x, _ in p.decoys if ww == w] for w in ("before", "glue_before", "glue_after")}
        delivered += d["before"] + d["glue_before"] + [(mt.SRSP, p.c.subsys, p.c.name, p.rsp)] + d["glue_after"]
        for _, _, _, kind in p.decoys:
            ctx.count("decoys")
            if kind in ("same_id", "same_name"):
                ctx.count("decoys_" + kind)
    got = [(t, s, n, q) for _, t, s, n, q in rec.got]
    if got != delivered:
        k = next((j for j in range(min(len(got), len(delivered))) if got[j] != delivered[j]),
                 min(len(got), len(delivered)))
        raise Violation("the application saw %d messages of %d; first difference at %d: got %r, expected %r" % (
            len(got), len(delivered), k, got[k:k + 1], delivered[k:k + 1]))
    if any(p.decoys for p in order):
        ctx.sig([(repr(p.c), p.rsp, [d[2] for d in p.decoys]) for p in order])
    ctx.sample(traffic.lines(order)[:5])
    api.close()
    await asyncio.sleep(0)
