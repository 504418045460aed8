"""Regenerate MANIFEST.json from the property list and the checks present."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "pointwise oracle over exact rationals",
}
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "./check.py %s" % i,
            "thorough_cmd": "./check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "property-based testing: generated inputs/programs against an exact rational reference model, with shrinking",
            "level": "exploration",
            "level_note": "Search over generated cases (counts in the evidence file), seeded by VERIF_SEED; no proof. Trusts the "
            "reference model in vlib/model.py, the observation through public methods in vlib/real.py, pandas/numpy and Hypothesis.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./check.py --self-test",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the checks import staircase from /repo and observe it through its public API. See DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
