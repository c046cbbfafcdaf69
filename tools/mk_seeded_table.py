"""usage: mk_seeded_table.py [LOG ...]   merge evaluation logs into seeded_results.json and write seeded_table.md"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "tools", "seeded_results.json")
res = json.load(open(S)) if os.path.exists(S) else {}
for f in sys.argv[1:]:
    for line in open(f):
        if line.startswith("{"):
            d = json.loads(line)
            first = d["id"] in res and "MISSED" in res[d["id"]]["history"]
            h = (res[d["id"]]["history"] if d["id"] in res else []) + [d["verdict"].split()[1]]
            p = d[d["property"]]
            res[d["id"]] = dict(property=d["property"], verdict=d["verdict"], facet=p[2].split(d["property"] + "_")[-1].replace(".json", "") if p[2] else "", seconds=p[1], history=h)
res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(V, "seeded", k))}
json.dump(dict(sorted(res.items(), key=lambda t: (t[1]["property"], t[0]))), open(S, "w"), indent=1)
out = ["| change | property | caught by (quick, VERIF_SEED=1) | at first | needs |", "|---|---|---|---|---|"]
for k, v in sorted(res.items(), key=lambda t: (t[1]["property"], t[0])):
    m = json.load(open(os.path.join(V, "seeded", k, "meta.json")))
    by = f"facet `{v['facet']}`, {v['seconds']} s" if v["verdict"].endswith("caught") else "**missed**"
    out.append(f"| {k} | {v['property']} | {by} | {v['history'][0].lower()} | {m['needs']} |")
miss = [k for k in os.listdir(os.path.join(V, "seeded")) if k not in res]
n = sum(v["verdict"].endswith("caught") for v in res.values())
out.append("")
out.append(f"{n} of {len(res)} caught; {sum(v['history'][0] == 'MISSED' for v in res.values())} were missed when first tried and led to stronger checks.")
open(os.path.join(V, "tools", "seeded_table.md"), "w").write("\n".join(out) + "\n")
print(n, len(res), "without result:", miss)
