"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
PY = "/opt/venv/bin/python"
TECH = "symbolic execution of the real code on sympy terms, obligations decided by z3 over all values within the bounds"
NOTE = ("Solver verdict (unsat of the negated property) for every value of the symbolic inputs within the stated bounds, on terms "
        "computed by /repo's current code; counterexamples are replayed on the real code. Trusted: sympy's term constructors "
        "(expand, diff, integrate of polynomials), the term-to-z3 translation in lib/smt.py and z3. ")
NOTES = {}
NA = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "checks", f"{i}.py")) and i not in NA:
        checks.append({
            "property": i, "quick_cmd": f"{PY} checks/{i}.py --tier quick", "thorough_cmd": f"{PY} checks/{i}.py --tier thorough",
            "technique": TECHS.get(i, TECH), "level": "other", "level_note": NOTE + NOTES.get(i, "")})  # noqa: F821
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": f"{PY} tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
