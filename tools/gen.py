import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["qover"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"],
        quick_cmd=f"python3 run_check.py {p['id']} --tier quick",
        thorough_cmd=f"python3 run_check.py {p['id']} --tier thorough",
        technique="symbolic execution of the real Python source with z3 (path exploration, SMT-decided assertions, counterexample replay)",
        level="model_checking",
        level_note=f"Bounded symbolic execution: every assertion on every explored path is decided by z3 over all values within the bounds; floats as reals with tolerance. {p['note']}. Trusted: the engine's numpy/pandas/scipy shims (witness paths are replayed on the unmodified code)."))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python run_check.py --selftest", checks=checks, not_applicable=na,
    notes="All checks share /verif/engine; see DESIGN.md. Repairs and known findings: known_findings.json."), open(f"{V}/MANIFEST.json", "w"), indent=1)
