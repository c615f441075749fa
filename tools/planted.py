"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/caught.txt (lines: id check; written when the check was seen to catch it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(f"{V}/tools/caught.txt"):
    p = l.split()
    if p: caught[p[0]] = " ".join(p[1:])
rows = ["| id | what it breaks | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    e = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {i} ({m['property']}) | {e(m['what_it_breaks'])} | {e(m['needs'])} | {caught.get(i, 'not caught')} |")
d = open(f"{V}/DESIGN.md").read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
d = d.replace("@@TABLE@@", t) if "@@TABLE@@" in d else re.sub(r"<!-- planted -->.*?<!-- /planted -->", lambda _: t, d, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(d)
