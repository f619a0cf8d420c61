#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist in mc/."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "mc", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "The exhaustive check for this property is not built yet."})
        continue
    mod = ast.parse(open(f).read())
    const = {t.id: ast.literal_eval(n.value) for n in mod.body if isinstance(n, ast.Assign)
             for t in n.targets if isinstance(t, ast.Name) and t.id in ("BOUNDS", "ASSUMPTIONS")}
    checks.append({"property": i,
                   "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
                   "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": TECH.get(i, TECH["default"]),
                   "level": "model_checking",
                   "level_note": "Exhaustive within these bounds: " + const["BOUNDS"] + ". Assumes: " +
                                 "; ".join(const["ASSUMPTIONS"]) + "."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Checks run the Python sources of /repo directly (put first on sys.path); nothing is built and "
                    "no hooks are used. Known findings and repaired defects: /verif/known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
