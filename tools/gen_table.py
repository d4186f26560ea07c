#!/usr/bin/env python3
"""gen_table.py TRYBUG.log: rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(sys.argv[1]):
    m = re.match(r"(c\d\d-\S+)\s+(C\d\d)\s+(\S+)", l)
    if m:
        got.setdefault(m[1], {})[m[2]] = m[3].lower()
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for b in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(root + "/seeded/" + b + "/meta.json"))
    r = got.get(b, {})
    by = ", ".join(c for c in sorted(r) if r[c] == "caught") or ("not run" if not r else "**missed**")
    rows.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "\\|"), by))
p = root + "/DESIGN.md"
t = open(p).read()
head = t[:t.index("<!-- table -->")]
tail = t[t.index("<!-- end of table -->"):] if "<!-- end of table -->" in t else "<!-- end of table -->\n"
open(p, "w").write(head + "<!-- table -->\n" + "\n".join(rows) + "\n" + tail)
