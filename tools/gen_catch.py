"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/catch-notes.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(V + "/tools/catch-notes.json"))
rows = ["| planted bug | property | what it breaks | caught |", "|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], notes.get(n, "yes")))
d = open(V + "/DESIGN.md").read()
B, E = "<!-- catches -->\n", "\n<!-- end -->"
if B not in d:
    d = d.replace("@@CATCH@@", B + E)
i, j = d.index(B) + len(B), d.index(E)
open(V + "/DESIGN.md", "w").write(d[:i] + "\n".join(rows) + d[j:])
