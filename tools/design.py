#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in and the descriptions of the planted bugs."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s: %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["property"],
                                          m.get("caught_by", m["property"])))
s = open(os.path.join(HERE, "tools", "DESIGN.in")).read().replace("@@TABLE@@", "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(s)
