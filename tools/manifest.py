#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitoring: delivered frames against the generated byte stream, random cuts and noise",
 "C02": "runtime monitoring: strict independent parser over all bytes written, concurrent callers, partial writes",
 "C03": "runtime monitoring: differential oracle (independent codec model) on live command traffic",
 "C04": "runtime monitoring with fault injection: out-of-range values and every truncation",
 "C05": "runtime monitoring with fault injection: uninterpretable frames mixed into live traffic",
 "C06": "online trace monitor (automaton) on the serial port under concurrency, loss and cancellation",
 "C07": "history checking with unique response values under concurrent callers and decoys",
 "C08": "timed trace monitor in virtual time with dropped, late and failing answers",
 "C09": "fault injection (late, duplicate, unsolicited replies) with live-object accounting",
 "C10": "offline history check against a FIFO reference model",
 "C11": "differential oracle: adapter command log against an independent translation",
 "C12": "differential oracle: decoded replies against simulated device content",
 "C13": "history check: adapter command log and caller outcomes, one to one",
 "C14": "history check: delivered messages against generated incoming sequence",
 "C15": "state monitor on the device table over simulated joins and interviews",
 "C16": "interval-overlap monitor at the adapter, capacity probe after faults",
 "C17": "postcondition monitor on a simulated adapter's memory, random prior states",
 "C18": "write/reset/commissioning log monitor on a simulated adapter",
 "C19": "registration log monitor on a simulated adapter",
 "C20": "fault injection (connection loss) with bounded-progress and at-most-one-connection monitors",
 "C21": "trace monitor over port opens and closes after shutdown at any moment",
 "C22": "timed outcome monitor with fault injection on the probed port",
 "C23": "monitor on port opens over generated port lists and settings",
 "C24": "fault enumeration over startup steps and fault kinds with postcondition monitor",
 "C25": "command-log monitor for permit-join and LED commands",
 "C26": "differential trace monitor: the same life recorded alone and beside others",
 "C27": "differential trace monitor: a used driver against a new one on a copied adapter",
 "C28": "resource monitor: reachable size, executed functions per byte, blocking calls under floods",
 "C29": "history check across restarts against simulated devices, with a database on disk",
}
LEVEL = {"C24": "fault_enumeration"}
NOTE = ("Held on the executions explored (counts in the evidence file), not proved. The real driver, serial_asyncio "
        "transport and zigpy run; trusted: the harness (virtual-time loop, in-memory port, simulated adapter) and the "
        "independent protocol table lib/mtspec.txt.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": TECH[i], "level": LEVEL.get(i, "exploration"), "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "the monitor for this property is not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed at the serial port and at the zigpy interface."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
