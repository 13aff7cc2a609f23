"""Writes MANIFEST.json from the catalogue."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim import catalogue  # noqa

NOTES = catalogue.NOTES
checks = []
for prop, info in catalogue.INFO.items():
    if not os.path.exists(os.path.join(ROOT, "sim", "checks", prop.lower() + ".py")):
        continue
    tech, note = NOTES[prop]
    checks.append({"property": prop, "quick_cmd": f"python3 run.py {prop} quick", "thorough_cmd": f"python3 run.py {prop} thorough",
                   "evidence_file": f"evidence/{prop}.json", "technique": "deterministic simulation with fault injection: " + tech,
                   "level": "exploration", "level_note": note})
na = [{"property": "E01", "reason": "pure function of the input string: no schedule, clock, fault, I/O or history for the property to depend on; the "
                                    "expressions that T01, D01 and H01 evaluate under faults use several spellings, but this property is not decided"},
      {"property": "L01", "reason": "independence and completeness of a list computed by a pure function of its arguments; the cache around it is C01/C02"},
      {"property": "M01", "reason": "pure functions on tuples: no schedule, clock, fault, I/O or history"}]
done = {c["property"] for c in checks}
with open(os.path.join(ROOT, "properties.jsonl")) as f:
    for line in f:
        p = json.loads(line)["id"]
        if p not in done and p not in {e["property"] for e in na}:
            na.append({"property": p, "reason": "check not built yet"})
man = {"version": 1, "setup_cmd": "python3 run.py selftest", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every seam is reached from outside (entropy, file-system calls, dbm, the solver's process, trace events). "
                "Repairs in /repo are listed in known-findings.json. Replay: python3 run.py replay <file>."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
