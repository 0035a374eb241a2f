#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (section 7) from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | breaks | needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
s = open(V + "/DESIGN.md").read()
new = "<!-- plants -->\n" + "\n".join(rows).replace("\\", "\\\\") + "\n<!-- /plants -->"
s = re.sub(r"@@PLANTS@@|<!-- plants -->.*?<!-- /plants -->", new, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
