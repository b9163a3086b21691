"""DESIGN.md from design.src.md, known_findings.json and seed_status.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
s = open(f"{H}/design.src.md").read()
k = json.load(open(f"{V}/known_findings.json"))
fixed = next(v for v in k.values() if isinstance(v, list) and any(str(x).startswith("fixed") for x in v))
rows = ["| property | commit | what failed |", "|---|---|---|"]
for f in fixed:
    _, p, c, t = f.split(" ", 3)
    rows.append(f"| {p[9:]} | {c} | {t} |")
st = json.load(open(f"{H}/seed_status.json")) if os.path.exists(f"{H}/seed_status.json") else {}
sr = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for i, v in sorted(st.items()):
    sr.append(f"| {i} | {v['property']} | {v['breaks']} | {v['needs']} | {(v['property'] + ' ' + v['by'].replace('|', '/')) if v['caught'] else '**missed**'} |")
open(f"{V}/DESIGN.md", "w").write(s.replace("@@DEFECTS@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(sr)))
