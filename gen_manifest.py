"""python3 gen_manifest.py: writes MANIFEST.json from the props modules that exist and properties.jsonl."""
import json, os
props = [json.loads(l) for l in open("properties.jsonl")]
NOTES = json.load(open("level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"harness/props/{i.lower()}.py") and i in NOTES:
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "TLA+ specification checked with TLC; its cases replayed into the code and recorded calls judged by TLC (trace validation)",
                       "level": "model_checking", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": NOTES.get("na:" + i, "specification and conformance check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every property is observed at the return of a public call or in the files written. Seeds: VERIF_SEED. Replay a reported case with ./check ID --replay FILE."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
