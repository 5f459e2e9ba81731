#!/usr/bin/env python3
"""Development aid: rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json. No check uses this."""
import json, os, re
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ids = sorted(os.listdir(os.path.join(H, "seeded")))
rows = ["| change | caught by | what it needs |", "|---|---|---|"]
for i in ids:
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/")))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
s = re.sub(r"keeps \S+ planted changes", "keeps %d planted changes" % len(ids), s)
open(p, "w").write(s)
print(len(ids))
