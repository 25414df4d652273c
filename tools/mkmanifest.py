"""Writes MANIFEST.json: every property with a check module is claimed, the others are listed as not claimed."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append(dict(
            property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=n.get("technique", "property-based testing (Hypothesis): generated inputs against an independent reference"),
            level="exploration",
            level_note=n.get("note", "No counterexample among the generated cases counted in the evidence file; trusts the reference formulae in vlib/formulas.py, SciPy quadrature and the tolerances stated in the check."),
        ))
    else:
        na.append(dict(property=i, reason="the check for this property is not built yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks: every check drives the public interface of /repo/src/halomod directly."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
