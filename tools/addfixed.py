"""addfixed.py PROP COMMIT TEXT: records a repaired defect."""
import json, sys
p, c, t = sys.argv[1:]
f = "/verif/known-findings.json"
d = json.load(open(f))
d["findings"].append({"property": p, "status": "fixed", "commit": c, "sig": None, "what": t, "entry": f"fixed: property={p} {c} {t}"})
json.dump(d, open(f, "w"), indent=1)
