"""C24: an interrupted or failing startup never passes for a configured network."""
import asyncio

from lib import mtspec as mt, rig, startup, vloop
from lib.core import Violation
from checks.c19 import GROUP, TABLE

PROP = "C24"
LEVEL = "fault_enumeration"
FAULTS = ("status", "drop", "noexec", "quiet", "lose", "exec+lose", "lose later", "cut", "exec+cut", "cut later", "reboot",
          "cancel", "dead")
PRIORS = ("blank", "other", "same", "one", "nopan", "random")
STEPS = 44
ALL = 3 * len(PRIORS) * STEPS * len(FAULTS)
CASES = {"quick": 2 * ALL, "thorough": 24 * ALL}
RULE = ("Firmware x prior state x number of the command x kind of fault are enumerated (%d combinations); configuration, "
        "details of the prior state, adapter timing and pauses are random per case. The attempt at which the fault strikes "
        "is judged, then (sometimes after a second faulty attempt) an undisturbed one. Distinct = distinct (firmware, prior "
        "memory, command struck, fault); non-trivial = the fault struck." % ALL)
ASSUMPTIONS = ["an adapter whose network state was cleared forms a network from its settings when its stack is started",
               "a power cut keeps every completed write to non-volatile memory and nothing of an uncompleted one"]
REQUIRED = dict({"struck": 20000, "failed": 18000, "succeeded": 2400, "recovered": 20000, "twice": 6000, "same_app": 1200,
                 "initialising": 13000, "written": 10000, "no_shutdown": 9000}, **{"fault_" + f: 1600 for f in FAULTS})


def make_case(i, rng, ctx):
    k = i % ALL
    c = {"product": k % 3, "i": i}
    k //= 3
    c["kind"], k = PRIORS[k % len(PRIORS)], k // len(PRIORS)
    c["fault"], k = FAULTS[k % len(FAULTS)], k // len(FAULTS)
    c["step"] = k
    c["net"] = startup.config(rng)
    c["twice"] = rng.random() < 0.3
    c["again"] = rng.choice(("fresh", "fresh", "no shutdown", "same"))
    return c


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


class Strike:
    """Makes one fault happen at the n-th command of the host."""

    def __init__(self, loop, z, rng, n, fault):
        self.loop, self.z, self.rng, self.n, self.fault = loop, z, rng, n, fault
        self.seen = 0
        self.struck = None
        self.task = None
        self.base = z.policy
        self.frame = type(z).on_frame.__get__(z)
        z.on_frame = self.on_frame
        z.policy = self.policy
        self.pol = None

    def policy(self, cmd, n):
        if self.pol is not None:
            p, self.pol = self.pol, None
            return p
        return self.base(cmd, n)

    def over(self):
        z = self.z
        del z.on_frame
        z.policy = self.base
        z.drop_state_ind = z.drop_reset_ind = lambda: False
        z.alive = True

    def lose(self):
        if self.z.port is not None and self.task is not None and not self.task.done():
            self.z.port.lose()

    def cut(self):
        if self.task is None or not self.task.done():
            self.z.power_cut()
            self.lose()

    def on_frame(self, typ, sub, cid, data):
        z, rng, fault = self.z, self.rng, self.fault
        k = self.seen
        self.seen += 1
        if k != self.n:
            return self.frame(typ, sub, cid, data)
        cmd = mt.BY_ID.get((sub, cid))
        self.struck = cmd.name if cmd else "?"
        if fault == "status":
            if typ == mt.AREQ or rng.random() < 0.2 or "status" not in [f for f, _ in cmd.rsp]:
                # the generic error reply
                z.send(mt.frame(mt.SRSP, 0, 0, bytes([rng.choice((1, 2, 3, 4)), 0x20 | sub, cid])), 0.002)
                return
            self.pol = {"status": rng.choice((1, 2, 3, 9, 0x0A, 0x0C, 0xB8, 0xFF, rng.randrange(1, 256)))}
        elif fault == "drop":
            self.pol = {"drop": True, "silent_areqs": rng.random() < 0.5}
        elif fault == "noexec":
            if typ == mt.AREQ:
                return
            self.pol = {"noexec": True}
        elif fault == "quiet":
            self.pol = {"quiet": True}
            z.drop_state_ind = z.drop_reset_ind = lambda: True
        elif fault == "lose":
            return self.lose()
        elif fault == "cut":
            return self.cut()
        elif fault == "dead":
            z.alive = False
            return
        self.frame(typ, sub, cid, data)
        self.pol = None
        if fault == "exec+lose":
            self.lose()
        elif fault == "exec+cut":
            self.cut()
        elif fault == "reboot":
            z.power_cut()
        elif fault == "cancel":
            d = rng.choice((0.0, 0.001, 0.01, 0.5))
            self.loop.call_later(d, self.task.cancel)
        elif fault in ("lose later", "cut later"):
            self.loop.call_later(rng.choice((0.0005, 0.003, 0.02, 0.5, 2.0)), self.lose if fault == "lose later" else self.cut)


def problems(z, app, product, exp, nv0):
    bad = startup.postcondition(z, app, product, exp, nv0)
    for ep, want in TABLE.items():
        if z.eps.get(ep) != want:
            bad.append("endpoint %d is %r" % (ep, z.eps.get(ep)))
    if GROUP not in z.groups:
        bad.append("endpoint 242 is in no group")
    return bad


async def _run(loop, case, rng, ctx):
    product = case["product"]
    exp = rig.expected_net(case["net"])
    kind, detail, nv = startup.prior(rng, product, exp, case["kind"])
    world, z = startup.adapter(loop, rng, product, nv)
    how = startup.place(z, rng)
    startup.variations(z, rng)
    app = None
    history = []
    plan = [(case["step"], case["fault"])]
    if case["twice"]:
        plan.append((rng.randrange(STEPS), rng.choice(FAULTS)))
        ctx.count("twice")
    desc = "%s, prior %s%s, %s" % (startup.FW[product], kind, "/" + detail if detail else "", how)
    for n, fault in plan:
        nv0 = dict(z.nv)
        s = Strike(loop, z, rng, n, fault)
        if app is None or case["again"] != "same":
            app = rig.App(rig.app_config(net=case["net"]))
        else:
            ctx.count("same_app")
        s.task = asyncio.ensure_future(app.startup(auto_form=True))
        done, _ = await asyncio.wait([s.task], timeout=900)
        if not done:
            raise Violation("startup did not end within 900 s (%s, %s at command %d %s)" % (desc, fault, n, s.struck))
        ok = not s.task.cancelled() and s.task.exception() is None
        what = "%s: %s at command %d (%s)" % (desc, fault, n, s.struck)
        history.append((fault, n, s.struck, "ok" if ok else repr(s.task.exception()) if not s.task.cancelled() else "cancelled"))
        if s.struck is None:
            ctx.count("not_reached")
            if not ok:
                raise Violation("%s: an undisturbed startup failed: %s" % (desc, history))
        else:
            ctx.count("struck")
            ctx.count("fault_" + fault)
            ctx.sig(product, sorted(nv0.items()), s.struck, n, fault)
            if nv0 != z.nv:
                ctx.count("written")
            if z.resets:
                ctx.count("initialising")
        ctx.count("succeeded" if ok else "failed")
        if ok and fault != "reboot":
            bad = problems(z, app, product, exp, nv0)
            if bad and fault == "status" and s.struck == "osalNvRead":
                # the adapter denied having the setting (the marker): starting over is right too
                bad = problems(z, app, product, exp, None)
            if bad:
                raise Violation("startup reported success (%s): %s" % (what, "; ".join(bad[:3])), history=history)
        if case["again"] == "fresh" or rng.random() < 0.2:
            await app.shutdown()
        else:
            ctx.count("no_shutdown")
            if ok:
                await app.shutdown()
        s.over()
        await asyncio.sleep(rng.choice((0.01, 0.01, 0.5, 3.0, 7.0, 70.0)))
    nv0, nib = dict(z.nv), z.nib
    if case["again"] != "same":
        app = rig.App(rig.app_config(net=case["net"]))
    z.violations.clear()
    r = await rig.outcome(app.startup(auto_form=True), 900)
    if r[0] != "ok":
        raise Violation("the undisturbed startup afterwards failed: %r (%s, %s)" % (r, desc, history))
    bad = problems(z, app, product, exp, nv0)
    if z.nib is not nib:
        bad += startup.network(z, exp) if z.nv[131] != b"\xff\xff" else []
    if bad:
        raise Violation("after the undisturbed startup (%s, %s): %s" % (desc, history, "; ".join(bad[:3])))
    ctx.count("recovered")
    ctx.sample({"case": desc, "history": history})
    startup.orders(z)
    rig.check_escaped(loop)
    await app.shutdown()
