#!/usr/bin/env python3
"""catch_table.py LOG...: Markdown table of what caught which planted bug (logs of the catch runs)."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) > 3 and w[1] in ("CAUGHT", "MISSED"):
            c = re.search(r"class=(\S+)", l)
            res[w[0]] = (w[1], w[3], c.group(1) if c else "")
print("| bug | what it needs | caught by |\n|---|---|---|")
for b in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", b, "meta.json")))
    r = res.get(b, ("?", m["property"], ""))
    needs = re.sub(r"\s+", " ", m["needs"]).replace("|", "/")
    print(f"| {b} | {needs[:150]} | {'' if r[0]=='CAUGHT' else '**missed** '}{r[1]} `{r[2]}` |")
