#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import glob, json, os, re
rows = ["| change | needs | caught by |", "|--------|-------|-----------|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
p = "/verif/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- end -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S)
open(p, "w").write(s)
