"""C19: all coordinator endpoints are registered once and the green-power group joined."""
import asyncio

from lib import gen, mtspec as mt, rig, startup, vloop, zdo
from lib.core import Violation

PROP = "C19"
CASES = {"quick": 2000, "thorough": 60000}
RULE = ("A case is one startup against an adapter on which a random subset of the endpoints and the group membership "
        "already exist, while unrelated traffic arrives - in particular endpoint lists of other devices, before, with "
        "and after the adapter's own; then a second startup. Distinct = distinct (subset, group, firmware, traffic); "
        "non-trivial = endpoint and group tables were judged.")
REQUIRED = {"startups": 3000, "some_present": 400, "all_present": 700, "none_present": 300, "group_present": 1000,
            "group_absent": 800, "foreign_lists": 1500, "registered": 8000}

# endpoint: (profile, device id, version, latency, input clusters, output clusters)
TABLE = {n: (0x0104, 5, 0, 0, (), ()) for n in (1, 8, 110, 47)}
TABLE.update({2: (0x0101, 5, 0, 0, (), ()), 3: (0x0106, 5, 0, 0, (), ()), 4: (0x0107, 5, 0, 0, (), ()),
              5: (0x0108, 5, 0, 0, (), ()), 6: (0x0109, 5, 0, 0, (), ()),
              11: (0x0104, 0x0400, 0, 0, (), (0x0500, 0x0502)), 12: (0xC05E, 5, 0, 0, (), ()),
              13: (0x0104, 5, 0, 0, (0x0019,), ()), 242: (0xA1E0, 5, 0, 0, (), ())})
GROUP = (242, 0x0B84)


def make_case(i, rng, ctx):
    return {"product": i % 3, "net": startup.config(rng), "kind": rng.choice(("same", "same", "same", "blank", "one")),
            "noise": rng.choice((0, 1, 3)), "subset": rng.choice(("none", "some", "some", "some", "one", "one", "but one", "but one", "all", "others"))}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


def _foreign(rng):
    n = [rng.randrange(1, 255) for _ in range(rng.choice((0, 1, 5, 30)))]
    if rng.random() < 0.6:
        n = sorted(set(n) | set(rng.sample(sorted(TABLE), rng.randrange(14))))
    a = rng.choice((1, 0xFF, 0x100, 0xFFFF, rng.randrange(1, 0xFFFF)))
    return mt.command_frame(mt.ZDO, "activeEpRsp", dict(srcaddr=a, status=rng.choice((0, 0, 0x80)), nwkaddr=rng.choice((a, 0)),
                                                        activeepcount=len(n), activeeplist=n), mt.AREQ)


async def _run(loop, case, rng, ctx):
    product = case["product"]
    exp = rig.expected_net(case["net"])
    kind, detail, nv = startup.prior(rng, product, exp, case["kind"])
    world, z = startup.adapter(loop, rng, product, nv)
    how = startup.place(z, rng, "running" if rng.random() < 0.6 else None)
    s = case["subset"]
    all_ = sorted(TABLE)
    present = {"none": [], "some": rng.sample(all_, rng.randrange(1, 13)), "one": [rng.choice(all_)],
               "but one": rng.sample(all_, 12), "all": all_, "others": rng.sample(range(14, 46), 3)}[s]
    present += [e for e in (7, 9, 200) if rng.random() < 0.2]
    rng.shuffle(present)
    for ep in present:
        z.eps[ep] = TABLE.get(ep, (0x0104, 1, 1, 0, (), (6,)))
    if rng.random() < 0.5:
        z.groups[GROUP] = 1
    if rng.random() < 0.3:
        z.groups[(rng.choice(all_), 0x0B84)] = 1
        z.groups[(242, rng.choice((0x0B83, 0x840B, 1)))] = 1
    startup.variations(z, rng)
    base = z.policy
    foreign = [0]

    def policy(cmd, n):
        pol = dict(base(cmd, n) or {})
        x = rng.random()
        if case["noise"] and cmd.name == "activeEpReq":
            k = rng.randrange(4)
            fs = [_foreign(rng) for _ in range(case["noise"])]
            foreign[0] += len(fs)
            ctx.count("foreign_lists", len(fs))
            if k == 0:
                z.send_now(b"".join(fs))
            elif k == 1:
                pol["before"] = fs
            elif k == 2:
                pol["same"] = fs
            else:
                for f in fs:
                    z.send(f, rng.choice((0.0, 0.0005, 0.005)), ordered=False)
        elif case["noise"] and x < 0.3:
            c = rng.choice([c for c in gen.AREQS if c.name not in ("stateChangeInd", "resetInd", "activeEpRsp",
                                                                  "permitJoinInd", "mgmtPermitJoinRsp", "endDeviceAnnceInd")])
            f = _foreign(rng) if x < 0.1 else gen.areq(c, gen.payload(c.req, rng, 200))
            pol[rng.choice(("before", "same"))] = [f]
        return pol

    z.policy = policy
    app = None
    for k in range(2):
        eps0, groups0 = dict(z.eps), dict(z.groups)
        z.resets = 0
        z.reg_log, z.group_log = [], []
        keep = startup.keeps(product, exp, z.nv)
        if app is not None:
            await app.shutdown()
            await asyncio.sleep(rng.choice((0.0, 1.0)))
            if rng.random() < 0.3:
                z.power_cut()
                eps0 = {}
        app = rig.App(rig.app_config(net=case["net"]))
        app.forward = False
        r = await rig.outcome(app.startup(auto_form=True), 600)
        if r[0] != "ok":
            raise Violation("startup failed: %r" % (r,))
        if not keep:
            eps0, groups0 = {}, {}
        for ep, want in TABLE.items():
            if z.eps.get(ep) != want:
                raise Violation("endpoint %d is %r, must be %r (present before: %s)" % (ep, z.eps.get(ep), want, sorted(eps0)))
        want = sorted(set(TABLE) - set(eps0))
        if sorted(z.reg_log) != want:
            raise Violation("registered %s, missing were %s (present: %s)" % (sorted(z.reg_log), want, sorted(eps0)))
        if set(z.eps) != set(TABLE) | set(eps0):
            raise Violation("endpoints %s" % sorted(z.eps))
        if GROUP not in z.groups:
            raise Violation("endpoint 242 is not in group 0x0B84: %s" % z.groups)
        if z.group_log != ([] if GROUP in groups0 else [GROUP]):
            raise Violation("groups added: %s, present: %s" % (z.group_log, sorted(groups0)))
        n = len(set(eps0) & set(TABLE))
        ctx.count("startups")
        ctx.count("registered", len(z.reg_log))
        ctx.count("none_present" if not n else "all_present" if n == 13 else "some_present")
        ctx.count("group_present" if GROUP in groups0 else "group_absent")
        ctx.sig(sorted(eps0), GROUP in groups0, product, foreign[0], k)
        ctx.sample({"present": sorted(eps0), "registered": z.reg_log, "group": z.group_log, "foreign lists": foreign[0]})
    startup.orders(z)
    rig.check_wire(z)
    rig.check_escaped(loop)
    await app.shutdown()
