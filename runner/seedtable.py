"""Rewrites the table of planted bugs in DESIGN.md (development only)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | caught by | what it breaks | needs |", "|---|---|---|---|"]
d = V + "/seeded"
for i in sorted(os.listdir(d)):
    m = json.load(open(d + "/" + i + "/meta.json"))
    f = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (i, m.get("caught_by", m["property"]), f(m["what_it_breaks"]), f(m["needs"])))
t = open(V + "/DESIGN.md").read()
b, e = "<!-- seeded -->\n", "<!-- /seeded -->\n"
new = b + "\n".join(rows) + "\n" + e
t = t.replace("@@TABLE@@\n", new) if "@@TABLE@@" in t else re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: new, t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
