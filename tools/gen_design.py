#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (planted bugs by property) from seeded/*/meta.json."""
import collections, glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    by[m["property"]].append((os.path.basename(os.path.dirname(f)), m["needs"].rstrip("."), m["what_it_breaks"].rstrip(".")))
rows = ["| planted bug | needs | breaks |", "|---|---|---|"]
for p in sorted(by):
    for i, n, b in by[p]:
        rows.append(f"| {i} | {n} | {b} |".replace("\n", " "))
s = open(root + "/DESIGN.md").read()
a, z = "<!-- planted:begin -->\n", "<!-- planted:end -->"
s = re.sub(re.escape(a) + ".*?" + re.escape(z), lambda _: a + "\n".join(rows) + "\n" + z, s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
print(sum(map(len, by.values())), "planted bugs,", len(by), "properties")
