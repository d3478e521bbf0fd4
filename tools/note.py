"""tools/note.py: stdin JSON {"level": {ID: note}, "design": {ID: note}, "fixed": [[ID, subject prefix, what]]}"""
import json, subprocess, sys
x = json.load(sys.stdin)
for f, k in (("level_notes.json", "level"), ("design_notes.json", "design")):
    d = json.load(open(f)); d.update(x.get(k, {})); json.dump(d, open(f, "w"), indent=1, ensure_ascii=False)
log = subprocess.run("git -C /repo log --format='%h %s'", shell=True, capture_output=True, text=True).stdout.splitlines()
k = json.load(open("known_findings.json"))
for i, pre, what in x.get("fixed", []):
    h = [l.split(" ", 1)[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + pre)]
    assert len(h) == 1, (pre, h)
    s = f"fixed: property={i} {h[0]} {what}"
    if s not in k["fixed"]: k["fixed"].append(s)
json.dump(k, open("known_findings.json", "w"), indent=1, ensure_ascii=False)
