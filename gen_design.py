"""python3 gen_design.py: fills the tables of DESIGN.md (from design_src.md, design_notes.json and seeded/)."""
import json, os
props = [json.loads(l) for l in open("properties.jsonl")]
notes = json.load(open("design_notes.json")); levels = json.load(open("level_notes.json"))
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n{notes.get(i, '(planned)')}\n")
    if i in levels:
        out.append(f"*Bounds and assumptions*: {levels[i]}\n")
seeds = []
for d in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open(f"seeded/{d}/meta.json"))
    seeds.append(f"| {d} | {m['property']} | {m.get('caught', 'caught')} | {m['what_it_breaks']} |")
s = open("design_src.md").read()
s = s.replace("@@TABLE@@", "\n".join(out)).replace("@@SEEDS@@", "| planted bug | property | check | what it breaks |\n|---|---|---|---|\n" + "\n".join(seeds))
open("DESIGN.md", "w").write(s)
