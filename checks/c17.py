"""C17: starting up brings the adapter to exactly the configured network."""
from lib import rig, startup, vloop
from lib.core import Violation

PROP = "C17"
CASES = {"quick": 6000, "thorough": 60000}
RULE = ("A case is one startup with network formation: random configuration, one of three firmwares, one of six classes "
        "of prior non-volatile memory (factory, other network, same, one item different, random, no PAN id), one of four "
        "running states, random timing. Distinct = distinct (memory, configuration, firmware); non-trivial = startup "
        "succeeded and its result was examined.")
REQUIRED = dict({"started": 1500, "reinitialised": 700, "kept": 200, "random_pan_kept": 40, "pan_zero": 50,
                 "formed_checked": 700, "could_not_form": 150}, **{"fw_%d" % p: 300 for p in range(3)},
                **{"prior_" + k: 100 for k in startup.KINDS})
ASSUMPTIONS = ["the simulated adapter follows the Z-Stack documentation; standard items always exist in its memory",
               "an adapter carrying the marker has device type, callbacks and link key set (they are written before it)"]


def make_case(i, rng, ctx):
    return {"product": i % 3, "net": startup.config(rng), "kind": rng.choice(startup.KINDS),
            "jammed": rng.random() < 0.1}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


async def _run(loop, case, rng, ctx):
    product = case["product"]
    exp = rig.expected_net(case["net"])
    kind, detail, nv = startup.prior(rng, product, exp, case["kind"])
    if exp["pan"] == 0:
        ctx.count("pan_zero")
    world, z = startup.adapter(loop, rng, product, nv)
    how = startup.place(z, rng)
    startup.variations(z, rng)
    nv0 = dict(z.nv)
    keep = startup.keeps(product, exp, nv0)
    app = rig.App(rig.app_config(net=case["net"]))
    if case["jammed"] and product != 0 and not keep:
        # no network can be formed on the configured channels at first
        z.bad_primary = True
        r = await rig.outcome(app.startup(auto_form=True), 600)
        if r[0] == "ok":
            raise Violation("startup succeeded although no network can be formed on the configured channels "
                            "(network on %s)" % (z.nib and z.nib["channels"].hex()), prior=kind, state=how)
        if z.nib is not None:
            bad = startup.network(z, exp)
            if bad:
                raise Violation("%s (no network could be formed on the configured channels)" % bad[0])
        ctx.count("could_not_form")
        await app.shutdown()
        z.bad_primary = False
        app = rig.App(rig.app_config(net=case["net"]))
    r = await rig.outcome(app.startup(auto_form=True), 600)
    if r[0] != "ok":
        raise Violation("startup failed on an undisturbed adapter: %r" % (r,), prior=kind, state=how)
    bad = startup.postcondition(z, app, product, exp, nv0)
    if not bad and not keep:
        bad = startup.network(z, exp)
        ctx.count("formed_checked")
    if bad:
        raise Violation("%s, prior %s%s, %s: %s" % (startup.FW[product], kind, "" if detail is None else "/" + detail,
                                                    how, "; ".join(bad)), writes=z.nv_writes)
    startup.orders(z)
    rig.check_wire(z)
    rig.check_escaped(loop)
    ctx.count("started")
    ctx.count("fw_%d" % product)
    ctx.count("prior_" + kind)
    ctx.count("kept" if keep else "reinitialised")
    if keep and nv0[131] == b"\xff\xff":
        ctx.count("random_pan_kept")
    ctx.sig(sorted(nv0.items()), sorted(exp.items()), product)
    ctx.sample({"fw": startup.FW[product], "prior": kind, "state": how, "resets": z.resets,
                "writes": [(k, v.hex()) for k, v in z.nv_writes]})
    await app.shutdown()
