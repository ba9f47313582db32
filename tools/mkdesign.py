"""Writes DESIGN.md from tools/design.tmpl.md and the parts."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
exec(open(os.path.join(HERE, "tools", "design_parts.py")).read())
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
na = {d["property"]: d["reason"] for d in man["not_applicable"]}
out = []
for p in props:
    if p["id"] in na:
        continue
    out.append(f"* **{p['id']} {p['title']}** (`checks/{p['id']}.py`). {PROPS[p['id']]}")  # noqa: F821
bugs = ["| change | property | caught by |", "|---|---|---|"]
found = {b: os.path.join(HERE, d, b) for d in ("seeded", "seeded-more") for b in os.listdir(os.path.join(HERE, d))}
for b in sorted(found):
    m = json.load(open(os.path.join(found[b], "meta.json")))
    bugs.append(f"| {b}: {m['what_it_breaks']} | {m['property']} | {BUGS.get(b, 'not run yet')} |")  # noqa: F821
nas = [f"* {k}: {v}" for k, v in sorted(na.items())] or ["Every property listed is claimed."]
t = open(os.path.join(HERE, "tools", "design.tmpl.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@BUGS@@", "\n".join(bugs)).replace("@@NA@@", "\n".join(nas))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
