#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md: bounds from harness/jobs.py, planted bugs from seeded/*/meta.json and tools/caught.txt."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + "/harness")
import jobs
bounds = "\n".join("* **%s** %s" % (p, (v["bounds"] if isinstance(v, dict) else v[0])) for p, v in sorted(jobs.PROPS.items()))
caught = {}
if os.path.exists(root + "/tools/caught.txt"):
    for l in open(root + "/tools/caught.txt"):
        if l.strip():
            k, v = l.split(None, 1)
            caught[k] = v.strip()
rows = ["| id | property | change breaks | caught by |", "|----|----------|---------------|-----------|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(root + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], caught.get(d, m["property"])))
f = root + "/DESIGN.md"
s = open(f).read()
for k, t in (("bounds", bounds), ("seeded", "\n".join(rows))):
    s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (k, k), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (k, t, k), s, flags=re.S)
open(f, "w").write(s)
