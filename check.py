#!/usr/bin/env python3
"""check.py <property> : decides one property of properties.jsonl (see DESIGN.md)."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
from vlib import *
from engine import *
import plans


def main():
    pid = sys.argv[1]
    cover = Cover()
    rc, verdict = 0, "held"
    try:
        level = plans.PLANS[pid](pid, cover) or "model_checking"
    except Violation as v:
        rc = 1
        level = "model_checking"
        verdict = "violated: " + str(v)
        path = v.replay or save_replay(pid, "failure.txt", str(v))
        print(v)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    except CheckError as e:
        print("CHECK-ERROR:", e)
        Scratch.drop()
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        Scratch.drop()
        sys.exit(2)
    for l in cover.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, l))
    cov = {"states": cover.states, "transitions": cover.transitions, "traces_validated_against_impl": cover.traces,
           "calls_checked": cover.calls, "spec_runs": cover.specs, "calls_by_operation": cover.opcalls,
           "samples": cover.samples or ["none"], "verdict": verdict}
    cov.update(cover.notes)
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "wall_s": round(time.time() - T0, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s (%d states, %d transitions, %d behaviours replayed, %.1f s)" % (pid, verdict[:200], cover.states, cover.transitions, cover.traces, time.time() - T0))
    Scratch.drop()
    sys.exit(rc)


main()
