"""Writes MANIFEST.json from the table below (levels per property)."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ("contract-based deductive verification: pre/postconditions and invariants on the real functions of /repo, executed symbolically "
        "from the mechanically instrumented source, every path obligation discharged by z3/cvc5; counterexamples replayed on the plain code")
LEVELS = json.load(open(os.path.join(HERE, "levels.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    e = LEVELS.get(i)
    if e and not e.get("na"):
        checks.append({"property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
                       "technique": TECH, "level": e["level"], "level_note": e["note"], "evidence_file": "/verif/evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": (e or {}).get("na", "contracts for this property are not written yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "The instrumentation happens on a copy of the source text in memory; /repo holds no hooks."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
