"""Rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"),
                                          m["property"]))
t = "<!-- seeds -->\n| id | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", t)
else:
    s = re.sub(r"<!-- seeds -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
