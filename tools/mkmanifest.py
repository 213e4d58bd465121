"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, pathlib, sys
R = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R))
from props import PROPS
props = [json.loads(l) for l in (R/"properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    s = PROPS.get(p["id"])
    if not s or s.get("na"):
        na.append({"property": p["id"], "reason": (s or {}).get("na", "check under construction")})
        continue
    c = {"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
         "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
         "technique": s.get("technique", "contract-based deductive verification (own VC generator for the Python subset, z3/cvc5)"),
         "level": s["level"], "level_note": s.get("note", "")}
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5' && /opt/venv/bin/python -c 'import numpy, scipy, pandas'",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: the contracts live beside the code in /verif/contracts and are checked against /repo's source on every run."}
(R/"MANIFEST.json").write_text(json.dumps(m, indent=1)+"\n")
