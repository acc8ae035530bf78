#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and lib/plans.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import plans
MBT = ("model-based testing from the TLA+ specification spec/SetMachine.tla: TLC enumerates every pair of values with every call and argument "
       "and simulates long call histories; every behaviour is replayed on the real code under many concretizations")
TECH = {}
NOTE = {}
DEFNOTE = ("TLC checks the specification exhaustively in the stated bounds; conformance of the code is established for the behaviours replayed "
           "(all abstract pairs x arguments, sampled concretizations of the value domain, sampled long histories), under AddressSanitizer with "
           "allocation balance. Trusts TLC, the compiler, and the harness' evaluation of answer terms.")
if hasattr(plans, "TECH"):
    TECH.update(plans.TECH)
if hasattr(plans, "NOTE"):
    NOTE.update(plans.NOTE)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, MBT), "level": "model_checking",
                       "level_note": NOTE.get(i, DEFNOTE)})
    else:
        na.append({"property": i, "reason": "specified but its conformance check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Language: TLA+ checked with TLC (see DESIGN.md). No hooks in /repo are needed: the harness uses the public API and the library's allocation hook; for threads it compiles the unmodified sources with the compiler's memory-access instrumentation (-fsanitize=thread) against its own scheduler."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
