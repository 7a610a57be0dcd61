"""rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json and seeded-results.json"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(root + "/seeded/%s/meta.json" % s))
    rows.append("| %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/")))
t = "| change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows)
p = root + "/DESIGN.md"
d = open(p).read()
a = d.index("## 5. Seeded bugs") + len("## 5. Seeded bugs\n")
b = d.index("\nvcheck prints a note")
d = d[:a] + "Each is reported by the check of the property it is filed under (last full run: all of them).\n\n" + t + "\n" + d[b:]
open(p, "w").write(d)
