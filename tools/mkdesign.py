"""Rewrites the generated sections of DESIGN.md (findings, planted bugs) from known_findings.json and seeded/*/meta.json."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
d = json.loads((ROOT / "known_findings.json").read_text())
f = ["## Findings", "", "Known (the check prints KNOWN-FINDING and exits 0; pinned by existing tests, so not repaired):", ""]
f += [f"* **{k['property']}** `{k['key']}` — {k['what']}" for k in d["findings"] if k["status"] == "known"]
f += ["", "Repaired in /repo (one `fix:` commit each; the checks report them again if they return):", ""]
for x in d["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    f.append(f"* {m[1]} `{m[2]}` {m[3]}")
s = ["## Planted bugs and what catches them", "", "Each is caught by the check of its property (run with `git apply`, then undone).",
     "", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for p in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(p.read_text())
    s.append(f"| {p.parent.name} | {m['property']} | {str(m['needs']).replace('|', '/')} | {m.get('caught_by', 'check of the property')} |")
t = (ROOT / "DESIGN.md").read_text()
for name, lines in (("FINDINGS", f), ("SEEDED", s)):
    block = f"<!-- {name} -->\n" + "\n".join(lines) + f"\n<!-- /{name} -->"
    if f"@@{name}@@" in t:
        t = t.replace(f"@@{name}@@", block)
    else:
        t = re.sub(f"<!-- {name} -->.*?<!-- /{name} -->", lambda _: block, t, flags=re.S)
(ROOT / "DESIGN.md").write_text(t)
