#!/usr/bin/env python3
"""Puts the list of seeded changes into DESIGN.md: matrix.py <log with lines "B01 C01 CAUGHT C01 C05">"""
import json, sys
rows = {}
for l in open(sys.argv[1]):
    f = l.split()
    rows[f[0]] = (f[1], f[3:], f[2])
text = ["| | property | reported by | what it breaks |", "|---|---|---|---|"]
for b in sorted(rows):
    p, hit, _ = rows[b]
    m = json.load(open("/verif/seeded/%s/meta.json" % b))
    w = " ".join(m["what_it_breaks"].split()).replace("|", "\\|")
    text.append("| %s | %s | %s | %s |" % (b, p, ", ".join(hit) or "–", w))
n = sum(1 for r in rows.values() if r[2] == "CAUGHT")
text.append("")
text.append("%d of %d are reported by the check of their own property." % (n, len(rows)))
s = open("/verif/DESIGN.md").read()
a = s.index("<!-- matrix -->")
e = s.find("<!-- end -->")
tail = s[e + len("<!-- end -->"):] if e >= 0 else s[a + len("<!-- matrix -->"):]
open("/verif/DESIGN.md", "w").write(s[:a] + "<!-- matrix -->\n" + "\n".join(text) + "\n<!-- end -->" + tail)
