"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Table of planted bugs\n"
try:
    ALSO = json.load(open(os.path.join(R, "tools", "planted.json")))
except OSError:
    ALSO = {}
rows = []
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), ALSO.get(d, "yes")))
p = os.path.join(R, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\nColumn *caught*: reported by the quick check of the property at seed 1.\n\n| bug | property = check | what it breaks | caught |\n| --- | --- | --- | --- |\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows))
