#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables here and in plans.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CLIENT = plans.CLIENT if hasattr(plans, "CLIENT") else {}
TODO = set(sys.argv[1:])
NOTE = ("Behaviours are generated from the Quint specification (random walks whose choices are aimed at boundaries, plus complete sweeps "
        "of stated finite spaces), every transaction is executed by the real program on the ledger the specification prescribes, and the "
        "complete outcome is compared; divergences are judged by the specification's own verdict operators. Assurance: no violation in the "
        "explored cases. Trusts the harness runtime (compared with litesvm in the thorough tier) and the spec's reading of the property.")
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "No hooks: the harness links the crates' public API. Specification language: Quint (spec/). See DESIGN.md."}
for p in props:
    if p["id"] in TODO:
        m["not_applicable"].append({"property": p["id"], "reason": "client conformance harness under construction"})
        continue
    t = "Quint specification; simulated behaviours replayed into the real program; spec-judged divergences"
    if p["id"] in plans.DESIGN:
        t = ("Quint specification; TLC checks every transition of its closed instances and the program executes each listed transition; "
             "simulated behaviours replayed into the real program; spec-judged divergences")
    if p["id"] in CLIENT:
        t = "Quint specification; generated vectors and behaviours replayed into the real clients and program; spec-judged divergences"
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s" % p["id"],
                        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                        "technique": t, "level": plans.LEVEL[p["id"]], "level_note": plans.NOTES.get(p["id"], NOTE) if hasattr(plans, "NOTES") else NOTE})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
