"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (all of them are caught by the check of their property unless listed)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}        # id -> remark
rows = ["| bug | property | breaks | caught by its check |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % b))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"], NOT.get(b, "yes")))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- TABLE -->.*", lambda _: "<!-- TABLE -->\n" + "\n".join(rows) + "\n", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
