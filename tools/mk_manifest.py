"""Writes MANIFEST.json from properties.jsonl, for the properties that have a check."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "P01": "property-based testing: Hypothesis cases against mpmath/quadrature references and finite differences",
    "P15": "property-based testing: metamorphic packaging of inputs over every source class",
    "P16": "property-based testing: bitwise purity and aliasing over generated query sequences",
    "P17": "stateful property-based testing against a freshly built object as model",
    "P18": "property-based testing of assignments against a reference of accepted and refused values",
    "P19": "property-based testing: metamorphic symmetry, superposition and scaling relations",
    "P20": "property-based testing against an independent Volterra integral and relations",
    "P21": "property-based testing: drawn contours read back and compared with an own interpolation",
}
DEFAULT = "property-based testing: Hypothesis cases against independent references, differential and metamorphic oracles, with shrinking"
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "pbt", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, DEFAULT), "level": "exploration",
            "level_note": "Searches generated inputs (seeded, thousands per run, shrunk on failure) against an oracle that does not share the code's formulas; "
                          "no violation means none was found in the cases counted in the evidence file, within the domain and tolerances listed there under assumptions. "
                          "Trusts numpy, scipy, mpmath and the references in pbt/.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Replay a failing case with: bash run.sh <id> <replay file>."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
