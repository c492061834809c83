"""Writes /verif/MANIFEST.json: one check per checks/cNN.py that exists."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(H, "tools", "notes.json")))
NA = {"C36": "depends on numba's per-thread random streams and work partitioning; no numba "
             "runtime is installed, so generated inputs cannot exercise it"}
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")):
        t, n = NOTES.get(i, ["property-based testing against an independent reference", ""])
        checks.append({
            "property": i, "quick_cmd": "python3-vt run.py %s quick" % i,
            "thorough_cmd": "python3-vt run.py %s thorough" % i, "technique": t,
            "level": "exploration",
            "level_note": (n + " " if n else "") + "Generated-input search (Hypothesis, "
            "seeded by VERIF_SEED) over the Python source of /repo; absence of violations "
            "holds for what was generated only. Trusts the stand-ins in shims/."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/smoke.py", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo. run.py --replay FILE decides a saved case again."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
