"""Writes DESIGN.md: head, one section per property (facets and assumptions from the code), tail, seeded table."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
notes = json.load(open(os.path.join(V, "tools", "design_notes.json")))
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("pbt." + p["id"].lower())
    out.append(f"### {p['id']} {p['title']}\n\n{notes[p['id']]}\n\n")
    out.append("| facet | decides | cases quick / thorough |\n|---|---|---|\n")
    for f in m.FACETS:
        out.append(f"| `{f.name}` | {' '.join(f.doc.split()).replace('|', chr(92) + '|')} | {f.quick} / {f.thorough} |\n")
    out.append("\nDomain and assumptions:\n\n" + "".join(f"- {a}\n" for a in m.ASSUMPTIONS) + "\n")
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
t = os.path.join(V, "tools", "seeded_table.md")
if os.path.exists(t):
    out.append(open(t).read())
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
