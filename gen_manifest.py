"""Writes MANIFEST.json."""
import json, sys
sys.path.insert(0, "checks"); sys.path.insert(0, "lib")
import broker
NOTE = ("TLC model-checks the operational model (Broker.tla) against the property for small constants; behaviours "
        "generated from the specification by TLC and random histories drive the real broker_handler, worker_registry and "
        "queue managers, and TLC evaluates the property on every recorded event (BrokerTrace.tla). Complete within the "
        "model's constants; for the code: all histories explored in the run, not all histories. Trusts TLC, the thin "
        "recording harness and the syntactic event conversion.")
OTHER = json.load(open("other_checks.json"))
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p in broker.PLAN:
        tech, note, level = "TLA+ specification checked with TLC; trace validation of the real code against it", NOTE, "model_checking"
    elif p in OTHER:
        tech, note, level = OTHER[p]["technique"], OTHER[p]["note"], OTHER[p]["level"]
    else:
        continue
    c = "python3 checks/run.py " + p
    checks.append({"property": p, "quick_cmd": c, "thorough_cmd": "VERIF_TIER=thorough " + c, "evidence_file": "evidence/%s.json" % p,
                   "technique": tech, "level": level, "level_note": note})
claimed = {c["property"] for c in checks}
na = [{"property": json.loads(l)["id"], "reason": "check not built yet"} for l in open("properties.jsonl") if json.loads(l)["id"] not in claimed]
json.dump({"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Specification language: TLA+ (TLC). No hooks in /repo; the harnesses use the interfaces the repository's own tests use."},
          open("MANIFEST.json", "w"), indent=1)
