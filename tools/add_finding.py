"""add_finding.py ID PROPERTY COMMIT WHAT : record a repaired defect."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
i, prop, c, what = sys.argv[1:]
d["findings"].append(dict(id=i, property=prop, status="fixed", commit=c,
                          what=f"fixed: property={prop} {c} {what}"))
json.dump(d, open(p, "w"), indent=1)
