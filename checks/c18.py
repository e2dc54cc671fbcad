"""C18: an adapter already running the configured network is left untouched."""
import asyncio

from lib import rig, startup, vloop, znp
from lib.core import Violation

PROP = "C18"
CASES = {"quick": 3000, "thorough": 60000}
RULE = ("A case is 1-4 startups of fresh applications (or recoveries of a running one) against one adapter, which starts "
        "out with the configured network, with exactly one setting differing by one bit or byte, or in any other state; "
        "between them the host disconnects, the adapter is power-cycled, or the connection is lost. Distinct = distinct "
        "(memory, configuration, firmware); non-trivial = the adapter's log was judged.")
REQUIRED = dict({"untouched": 2500, "already_running": 1000, "stack_started": 600, "reinitialised": 500,
                 "repeated": 1500, "power_cut": 300, "recovered": 300, "random_pan": 80},
                **{"differing_" + k: 60 for k in startup.ITEMS})


def make_case(i, rng, ctx):
    return {"product": i % 3, "net": startup.config(rng), "kind": rng.choice(("same", "one", "one", "nopan", "other", "blank")),
            "repeats": rng.choice((0, 1, 2, 3))}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


async def _run(loop, case, rng, ctx):
    product = case["product"]
    exp = rig.expected_net(case["net"])
    kind, detail, nv = startup.prior(rng, product, exp, case["kind"])
    world, z = startup.adapter(loop, rng, product, nv)
    how = startup.place(z, rng)
    startup.variations(z, rng)
    app = None
    for k in range(1 + case["repeats"]):
        nv0, nib, state = dict(z.nv), z.nib, z.devstate
        z.resets = 0
        z.nv_writes, z.commissioning, z.cmd_log = [], [], []
        keep = startup.keeps(product, exp, nv0)
        recovery = app is not None and rng.random() < 0.4
        if recovery:
            z.port.lose()
            if rng.random() < 0.5:
                z.power_cut()
                state = z.devstate
                nib = z.nib
                ctx.count("power_cut")
            await asyncio.sleep(150)
            ctx.count("recovered")
        else:
            if app is not None:
                await app.shutdown()
                if rng.random() < 0.4:
                    z.power_cut()
                    state, nib = z.devstate, z.nib
                    ctx.count("power_cut")
            net = case["net"]
            if rng.random() < 0.3:
                # the same configuration, spelled out
                net = dict(net, pan=exp["pan"], extpan=exp["extpan"], key=exp["key"])
            app = rig.App(rig.app_config(net=net))
            r = await rig.outcome(app.startup(auto_form=True), 600)
            if r[0] != "ok":
                raise Violation("startup failed on an undisturbed adapter: %r" % (r,))
        what = "%s, startup %d, prior %s%s, state %d" % (startup.FW[product], k + 1, kind if k == 0 else "own",
                                                         "/" + detail if k == 0 and detail else "", state)
        names = [c.name for _, c, _ in z.cmd_log]
        if not names:
            raise Violation("%s: no startup took place" % what)
        if keep:
            if z.resets or z.nv_writes or any(c != "app" for c in z.commissioning):
                raise Violation("%s: the adapter held the configured network and got %d resets, writes %s, commissioning %s"
                                % (what, z.resets, [(i, v.hex()) for i, v in z.nv_writes], z.commissioning))
            bad = [n for n in names if n.endswith("Write") or n.endswith("writeConfiguration") or n == "osalNvItemInit"
                   or n == "resetReq" or n == "systemReset" or n.startswith("bdb")]
            if bad:
                raise Violation("%s: the adapter held the configured network and got %s" % (what, bad))
            if z.commissioning != ([] if state == 9 else ["app"]):
                raise Violation("%s: stack starts: %s" % (what, z.commissioning))
            if nib is not None and z.nib is not nib:
                raise Violation("%s: a new network was formed" % what)
            if z.nv != nv0:
                raise Violation("%s: settings changed" % what)
            if z.devstate != 9:
                raise Violation("%s: the adapter is in state %d" % (what, z.devstate))
            ctx.count("untouched")
            ctx.count("already_running" if state == 9 else "stack_started")
            if k:
                ctx.count("repeated")
            if z.nv[znp.NV_PAN] == b"\xff\xff":
                ctx.count("random_pan")
        else:
            if k:
                raise Violation("%s: the adapter does not hold the network after a successful startup" % what)
            bad = startup.postcondition(z, app, product, exp, nv0) or startup.network(z, exp)
            if bad or not z.resets or (nib is not None and z.nib is nib):
                raise Violation("%s: not re-initialised (%d resets): %s" % (what, z.resets, bad))
            ctx.count("reinitialised")
            if detail:
                ctx.count("differing_" + detail)
        ctx.sig(sorted(nv0.items()), sorted(exp.items()), product, state, k)
        ctx.sample({"what": what, "keep": keep, "commands": names[:40]})
    startup.orders(z)
    rig.check_wire(z)
    rig.check_escaped(loop)
    await app.shutdown()
