#!/usr/bin/env python3
"""For every repaired defect in known-findings.txt: undo the repair in a scratch copy and run the property's check (expects exit 1)."""
import os, re, shutil, subprocess, sys, tempfile
for l in open("/verif/known-findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if not m or (sys.argv[1:] and m.group(2) not in sys.argv[1:]):
        continue
    d = tempfile.mkdtemp(prefix="regr")
    subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
    r = subprocess.run(["git", "-C", d + "/r", "revert", "-n", m.group(2)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(m.group(1), m.group(2), "CONFLICT", flush=True)
    else:
        o = subprocess.run(["python3-vt", "/verif/checks/run.py", m.group(1)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_OUT=d)).stdout.decode("utf8", "replace")
        v = [x for x in o.splitlines() if x.startswith("VIOLATION")]
        print(m.group(1), m.group(2), "caught" if v else "MISSED", "|", o.splitlines()[0][:150] if o else "", flush=True)
    shutil.rmtree(d)
