"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for b in sorted(os.listdir(HERE + "/seeded")):
    with open(f"{HERE}/seeded/{b}/meta.json") as fh:
        m = json.load(fh)
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].strip(), m["what_it_breaks"].strip()))
p = HERE + "/DESIGN.md"
with open(p) as fh:
    s = fh.read()
table = "<!-- planted -->\n" + "\n".join(rows).replace("\\", "\\\\") + "\n<!-- /planted -->"
s = s.replace("@@TABLE@@", "<!-- planted -->\n<!-- /planted -->")
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: table, s, flags=re.S)
with open(p, "w") as fh:
    fh.write(s)
