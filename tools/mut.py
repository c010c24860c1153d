#!/usr/bin/env python3-vt
"""mut.py FILE CHECKS.. < mutations: each mutation is 'name' line, then '<<<' old '===' new '>>>' block; runs checks on a scratch copy."""
import os, re, shutil, subprocess, sys, tempfile
rel, checks = sys.argv[1], sys.argv[2:]
txt = sys.stdin.read()
for m in re.finditer(r"^([^\n]+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>$", txt, re.S | re.M):
    name, old, new = m.groups()
    d = tempfile.mkdtemp(prefix="mut")
    shutil.copytree("/repo/include", d + "/include")
    p = os.path.join(d, "include/embedded", rel)
    s = open(p).read()
    if s.count(old) < 1:
        print("??", name, "text not found"); shutil.rmtree(d); continue
    open(p, "w").write(s.replace(old, new))
    res = []
    ps = [(c, subprocess.Popen(["python3-vt", "/verif/tools/crun.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_ONCE="1", VERIF_OUT=d))) for c in checks]
    for c, q in ps:
        o = q.communicate()[0].decode("utf8", "replace")
        w = [l for l in o.splitlines() if l.strip()]
        res.append("%s=%d" % (c, q.returncode) + ("(%s)" % (w[0][:160] if w else "") if q.returncode else ""))
    print(name, "->", "  ".join(res), flush=True)
    shutil.rmtree(d)
