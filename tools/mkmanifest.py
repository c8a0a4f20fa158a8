"""Write MANIFEST.json: every property with a driver in harness/props is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
N = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/props/{i.lower()}.py"):
        n = N.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python harness/run.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python harness/run.py {i}",
                           evidence_file=f"evidence/{i}.json",
                           technique=n.get("technique", "TLA+ specification checked with TLC; recorded traces of the real code replayed through it"),
                           level="model_checking",
                           level_note=n.get("note", "Model invariants are exhaustive within the bounds in DESIGN.md; conformance of the real code covers the executed sessions. Trusts TLC, the F64 override and the stated numeric tolerances.")))
    else:
        na.append(dict(property=i, reason=N.get(i, {}).get("na", "check not built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python harness/setup.py", checks=checks, not_applicable=na,
         notes="No hooks are needed: every observation goes through the public OpenMDAO interface. /repo carries only fix: commits.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not")
