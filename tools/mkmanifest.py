"""Writes MANIFEST.json from the plans that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import plans
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in plans.PLANS:
        t, n = TECH.get(p, TECH["*"])
        checks.append({"property": p, "quick_cmd": "python3 checks/check.py " + p, "thorough_cmd": "python3 checks/check.py %s --thorough" % p,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check yet")})
json.dump({"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", [x["property"] for x in na])
