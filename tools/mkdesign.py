#!/usr/bin/env python3
"""DESIGN.md = tools/design_text.md with the table of planted bugs filled in from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, m["what_it_breaks"]))
t = "| property = check that catches it | planted bug | what it breaks |\n|---|---|---|\n" + "\n".join("| %s | `%s` | %s |" % r for r in sorted(rows))
open(V + "/DESIGN.md", "w").write(open(V + "/tools/design_text.md").read().replace("@@SEEDS@@", t))
print(len(rows), "planted bugs")
