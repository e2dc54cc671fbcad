"""Check driver: case generation, verdicts, evidence, replays, shards."""
import collections
import hashlib
import json
import logging
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, **details):
        super().__init__(msg)
        self.msg = msg
        self.details = details


class Known(Exception):
    """A listed finding was observed (key identifies the mechanism)."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class HarnessError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.known = {}
        self.cpu = 0.0           # most CPU seconds one case took
        self.thorough = tier == "thorough"

    def count(self, name, n=1):
        self.counts[name] += n

    def sig(self, *what):
        """A distinct, non-trivial thing that was observed."""
        self.sigs.add(hashlib.md5(repr(what).encode()).hexdigest()[:12])

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:1500])


class Stuck(KeyboardInterrupt):
    """One case used far more CPU time than any can need (passes through asyncio)."""


CPU_LIMIT = 40


def _stuck(sig, frm):
    raise Stuck("".join(traceback.format_stack(frm)[-12:]))


def rng_for(prop, seed, i):
    return random.Random("%s/%s/%s" % (prop, seed, i))


def known_keys(prop):
    """Listed findings of this property: {key: text}."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                rest = line[len("finding: "):]
                p, k, text = rest.split(" ", 2)
                if p == "property=" + prop:
                    out[k.split("=", 1)[1]] = text
    return out


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {"hex": bytes(x).hex()}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, (float, str)):
        return x
    if isinstance(x, int):
        return int(x)
    return repr(x)


def write_replay(prop, seed, tier, index, case, msg, details):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, seed, index))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "index": index,
                   "message": msg, "case": jsonable(case), "details": jsonable(details)},
                  f, indent=1)
    return path


class Sink(logging.Handler):
    """Formats everything like a log file would."""

    def emit(self, record):
        try:
            self.format(record)
        except Exception:
            pass


def _logging(on):
    """Some cases run with the log turned on: it must not make a difference."""
    root = logging.getLogger()
    if on and not any(isinstance(h, Sink) for h in root.handlers):
        root.addHandler(Sink())
        root.setLevel(logging.DEBUG)
    logging.disable(logging.NOTSET if on else logging.CRITICAL)


def run_one(mod, ctx, index):
    """Run case number index; returns None or (message, details, case)."""
    from . import rig, vloop
    rng = rng_for(ctx.prop, ctx.seed, index)
    case = mod.make_case(index, rng, ctx)
    if case is None:
        return None
    ctx.count("cases")
    rig.AGE = random.Random(index).choice((260, 600)) if index % 50 == 17 else 0
    if not os.environ.get("VERIF_LOG"):
        _logging(index % 8 == 7 and getattr(mod, "LOGGED", True))
        ctx.count("with_log", index % 8 == 7)
    signal.signal(signal.SIGVTALRM, _stuck)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        mod.run_case(case, rng, ctx)
    except Violation as v:
        return v.msg, v.details, case
    except Known as k:
        if k.key not in known_keys(ctx.prop):
            return k.msg, {"unlisted-finding": k.key}, case
        ctx.known[k.key] = k.msg
        ctx.count("known_finding_observed")
    except Stuck as e:
        if "/zigpy_cc/" not in str(e):
            raise
        return "the driver used more than %d s of CPU time without an end" % CPU_LIMIT, {"trace": str(e)}, case
    except vloop.Deadlock as e:
        return "hang: %s" % e, {"trace": traceback.format_exc()[-3000:]}, case
    except vloop.Livelock as e:
        return "livelock: %s" % e, {"trace": traceback.format_exc()[-3000:]}, case
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = tb[-1].filename if tb else ""
        in_driver = any("/zigpy_cc/" in f.filename for f in tb)
        if in_driver and not inner.startswith(VERIF):
            return ("unexpected %s out of the driver: %s" % (type(e).__name__, e),
                    {"trace": traceback.format_exc()[-4000:]}, case)
        if isinstance(e, (AttributeError, TypeError, LookupError, ValueError, AssertionError)):
            # every correct execution is understood (each tier and many seeds ran without this)
            return ("the monitor cannot interpret what the driver did: %s %s (%s:%s)" % (
                type(e).__name__, e, os.path.basename(inner), tb[-1].lineno if tb else "?"),
                {"trace": traceback.format_exc()[-4000:]}, case)
        raise
    except (SystemExit, KeyboardInterrupt, GeneratorExit) as e:
        # passes through every event loop and ends the program
        if any("/zigpy_cc/" in f.filename for f in traceback.extract_tb(e.__traceback__)):
            return ("unexpected %s out of the driver: %s" % (type(e).__name__, e),
                    {"trace": traceback.format_exc()[-4000:]}, case)
        raise
    finally:
        left = signal.setitimer(signal.ITIMER_VIRTUAL, 0)[0]
        ctx.cpu = max(ctx.cpu, CPU_LIMIT - left)
    return None


def shard_run(mod, ctx, indices, wpipe):
    out = {"violation": None, "error": None}
    try:
        for i in indices:
            r = run_one(mod, ctx, i)
            if r is not None:
                msg, details, case = r
                path = write_replay(ctx.prop, ctx.seed, ctx.tier, i, case, msg, details)
                out["violation"] = [i, msg, path]
                break
    except BaseException:
        out["error"] = traceback.format_exc()
    out["counts"] = dict(ctx.counts)
    out["sigs"] = sorted(ctx.sigs)
    out["samples"] = ctx.samples
    out["known"] = ctx.known
    out["cpu"] = ctx.cpu
    if wpipe is None:
        return out
    data = json.dumps(out).encode()
    off = 0
    while off < len(data):
        off += os.write(wpipe, data[off:off + 65536])
    os.close(wpipe)
    return out


def main(mod, argv):
    prop = mod.PROP
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if os.environ.get("VERIF_LOG"):
        logging.basicConfig(level=logging.DEBUG)
    else:
        logging.disable(logging.CRITICAL)
    if "--replay" in argv:
        return replay(mod, argv[argv.index("--replay") + 1])

    t0 = time.time()
    limit = 840 if tier == "quick" else int(os.environ.get("VERIF_WATCHDOG", "3000"))
    parent = os.getpid()
    kids = []

    def watchdog(sig, frm):
        if os.getpid() != parent:
            os._exit(4)
        for pid in kids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        print("INCONCLUSIVE property=%s wall-clock watchdog after %d s" % (prop, limit))
        sys.stdout.flush()
        os._exit(4)

    signal.signal(signal.SIGALRM, watchdog)
    signal.alarm(limit)

    n = mod.CASES[tier]
    if "--cases" in argv:
        n = int(argv[argv.index("--cases") + 1])
    shards = getattr(mod, "SHARDS", {"quick": 4, "thorough": 8})[tier]
    shards = max(1, min(shards, n))
    if "--shards" in argv:
        shards = int(argv[argv.index("--shards") + 1])
    results = []
    if shards == 1:
        ctx = Ctx(prop, tier, seed)
        results.append(shard_run(mod, ctx, range(n), None))
    else:
        pipes = []
        for k in range(shards):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                os.close(r)
                for rr, _ in pipes:
                    os.close(rr)
                code = 0
                try:
                    shard_run(mod, Ctx(prop, tier, seed), range(k, n, shards), w)
                except BaseException:
                    code = 5
                os._exit(code)
            os.close(w)
            kids.append(pid)
            pipes.append((r, pid))
        for r, pid in pipes:
            data = b""
            while True:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                data += b
            os.close(r)
            _, st = os.waitpid(pid, 0)
            if data:
                results.append(json.loads(data.decode()))
            else:
                results.append({"violation": None, "error": "shard died, status %d" % st,
                                "counts": {}, "sigs": [], "samples": [], "known": {}})
    signal.alarm(0)

    counts = collections.Counter()
    sigs, samples, known = set(), [], {}
    for r in results:
        counts.update(r["counts"])
        sigs.update(r["sigs"])
        samples.extend(r["samples"])
        known.update(r["known"])
    errors = [r["error"] for r in results if r["error"]]
    viols = sorted([r["violation"] for r in results if r["violation"]])
    wall = round(time.time() - t0, 2)
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": int(counts.get("cases", 0)),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:4] or ["(none)"],
            "monitor_events": {k: int(v) for k, v in sorted(counts.items()) if k != "cases"},
            "shards": shards,
            "most_cpu_s_per_case": round(max(r.get("cpu", 0) for r in results), 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": wall,
        "violations": len(viols),
    }
    if getattr(mod, "EXHAUSTIVE", False):
        ev["coverage"]["exhaustive"] = True
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    kk = known_keys(prop)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kk.get(k, known[k])))
    if viols:
        for i, msg, path in viols[:4]:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  case %d: %s" % (i, msg))
        return 1
    if errors:
        print("INCONCLUSIVE property=%s harness error" % prop)
        print(errors[0])
        return 2
    missing = [(k, v, counts.get(k, 0)) for k, v in getattr(mod, "REQUIRED", {}).items()
               if counts.get(k, 0) < v * 0.6]
    if missing:
        print("INCONCLUSIVE property=%s monitors not reached enough: %s" % (prop, missing))
        return 3
    print("HELD property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs events=%s" % (
        prop, tier, seed, counts["cases"], len(sigs), wall,
        json.dumps(ev["coverage"]["monitor_events"])))
    return 0


def replay(mod, path):
    with open(path) as f:
        r = json.load(f)
    ctx = Ctx(r["property"], r["tier"], r["seed"])
    res = run_one(mod, ctx, r["index"])
    if res is None:
        print("replay: held (case %s)" % r["index"])
        return 0
    msg, details, case = res
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    print("  case %s: %s" % (r["index"], msg))
    for k, v in details.items():
        print("  %s: %s" % (k, v if isinstance(v, str) else json.dumps(jsonable(v))[:6000]))
    return 1
