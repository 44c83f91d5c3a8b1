"""Assembles DESIGN.md from design.head.md and the descriptions of the planted bugs"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(os.path.join(V, "tools", "design.head.md")).read()
rows = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.setdefault(m["property"], []).append((d, m))
out = []
for p in sorted(rows):
    out += ["### %s" % p, ""]
    for d, m in rows[p]:
        missed = " **Not caught** (%s)." % m["missed"] if m.get("missed") else ""
        out.append("* `%s` - %s Needs: %s%s" % (d, m["what_it_breaks"].strip().rstrip(".") + ".", m["needs"].strip().rstrip(".") + ".", missed))
    out.append("")
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n".join(out))
