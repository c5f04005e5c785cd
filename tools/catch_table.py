"""catch_table.py LOG...: rewrites the table of planted bugs in DESIGN.md from the logs of the planting tool (last verdict per id counts)."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
v = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d) demo good=0 bad=[1-9]\d* tests=450 passed, 0 failed check rc=(\d) \(\d+s\) (.*)", l)
        if m:
            v[m[1]] = (m[2], "caught" if "CAUGHT" in m[4] else "missed")
rows = ["| bug | property | what it breaks | check |", "|---|---|---|---|"]
for i in sorted(os.listdir(R + "/seeded"), key=lambda i: (json.load(open(R + "/seeded/%s/meta.json" % i))["property"], i)):
    m = json.load(open(R + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], "%s: %s" % v[i] if i in v else "?"))
p = R + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- catch-table -->", "<!-- /catch-table -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
print(len(rows) - 2, "bugs;", [i for i in os.listdir(R + "/seeded") if i not in v])
