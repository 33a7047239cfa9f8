#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl (run by hand)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "sipcheck": "property-based testing (rapid) with structured generators",
 "sdpcheck": "property-based testing (rapid) against a reference reader",
 "rtpcheck": "property-based testing (rapid) with a reference model of the stream",
 "dspcheck": "property-based testing (rapid) and enumeration against a reference model",
 "conccheck": "property-based testing (rapid) of concurrent operations, under the race detector, against their sequential results",
 "dlgcheck": "stateful property-based testing (rapid) against a model, over loopback sockets where needed",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
            thorough_cmd="python3 check.py %s thorough" % i,
            technique=c.get("technique", TECH[c["pkg"]]), level="exploration",
            level_note=c.get("note", "Random search with shrinking: it can miss a violation, and reports only real ones. " + " ".join(c["assumptions"])).strip()))
    else:
        na.append(dict(property=i, reason="Check not built yet."))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
    notes="No hooks: the checks use the exported API, sockets on 127.0.0.0/8 and the documented flags only. known-findings.txt lists repaired defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
