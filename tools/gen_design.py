#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md (between the two markers)."""
import glob, json, os, re
d = "/verif/DESIGN.md"
rows = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for s in sorted(glob.glob("/verif/seeded/*")):
    m = json.load(open(s + "/meta.json"))
    rows.append("| `%s` | %s | %s | %s |" % (os.path.basename(s), m["property"], m["what_it_breaks"], m["needs"]))
t = open(d).read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = re.sub(r"@SEEDS@|<!-- seeds -->.*<!-- /seeds -->", lambda _: new, t, flags=re.S)
open(d, "w").write(t)
