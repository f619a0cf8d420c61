#!/opt/venv/bin/python
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json; `caught` lists the checks measured to report each (tools/caught.json)."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(root, "tools", "caught.json")))
rows = ["| Planted bug | Breaks | What it does | Needs | Reported by |", "|---|---|---|---|---|"]
esc = lambda s: " ".join(str(s).split()).replace("|", "\\|")
for d in sorted(glob.glob(os.path.join(root, "seeded*", "*", "meta.json")), key=lambda d: d.split("/")[-2]):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {esc(m['what_it_breaks'])} | {esc(m['needs'])} | {', '.join(caught.get(i, [])) or 'not measured'} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
