"""seedtable.py: writes the table of planted bugs into DESIGN.md"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
t = open(HERE + "/DESIGN.md").read()
table = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
t = t.replace("SEEDTABLE", table) if "SEEDTABLE" in t else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: table, t, flags=re.S)
open(HERE + "/DESIGN.md", "w").write(t)
