#!/usr/bin/env python3-vt
"""plant.py [--nocheck] [--keep] FILE..: plants the bug described in each FILE in a scratch copy of /repo, confirms that it
builds, passes the tests and fails its demonstration, keeps it in seeded/, and says which checks notice it.

FILE:  'key: value' lines (id, prop, needs, breaks; std, cxxflags, also), then blocks
@@ path (relative to include/embedded, or from the top with a leading slash)
<<<
old
===
new
>>>
and finally '--- demo.cpp' followed by the demonstration (C++), or '--- demo.sh' by a whole script."""
import json, os, re, shutil, subprocess, sys
ROOT = "/tmp/plant"
S = ROOT + "/repo"
BASE = "44e8895"


def sh(cmd, cwd=S, timeout=900, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return r.returncode, r.stdout.decode("utf8", "replace")


def build():
    b = open("/opt/vp/build.sh").read().replace("/repo", S)
    open(ROOT + "/build.sh", "w").write(b)
    return sh("bash %s/build.sh" % ROOT)


def fresh():
    os.makedirs(ROOT, exist_ok=True)
    head = subprocess.check_output("git -C /repo rev-parse HEAD", shell=True).decode()
    if not os.path.isdir(S) or open(ROOT + "/head").read() != head:
        shutil.rmtree(S, ignore_errors=True)
        subprocess.check_call("cp -a /repo %s" % S, shell=True)
        shutil.rmtree(S + "/_build", ignore_errors=True)
        open(ROOT + "/head", "w").write(head)
    sh("git checkout -q -- . ")


DEMO = """#!/bin/bash
# exit 0: the property holds; anything else: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=%s %s -I include -o "$t/demo" "$d/demo.cpp" || exit 2
timeout 120 "$t/demo"
"""


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for f in args:
        t = open(f).read()
        head, demo = re.split(r"^--- (?=demo)", t, 1, re.M)
        demoname, demo = demo.split("\n", 1)
        meta = dict(re.findall(r"^(\w+): (.*)$", re.split(r"^@@ ", head, 1, re.M)[0], re.M))
        sid, prop = meta["id"], meta["prop"]
        fresh()
        d = "/verif/seeded/" + sid
        out = ROOT + "/new"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        if demoname.strip() == "demo.cpp":
            open(out + "/demo.cpp", "w").write(demo)
            open(out + "/demo.sh", "w").write(DEMO % (meta.get("std", "c++17"), meta.get("cxxflags", "-O1")))
        else:
            open(out + "/demo.sh", "w").write(demo)
        json.dump({"property": prop, "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        os.makedirs(ROOT + "/laid", exist_ok=True)
        rc, o = sh("bash %s/demo.sh" % out)
        if rc:
            print(sid, "DEMO FAILS UNCHANGED", rc, o[-1500:]); continue
        bad = None
        for m in re.finditer(r"^@@ ([^\n]+)\n((?:<<<\n.*?\n?===\n.*?\n?>>>\n)+)", head, re.S | re.M):
            p = S + (m.group(1).strip() if m.group(1)[0] == "/" else "/include/embedded/" + m.group(1).strip())
            for old, new in re.findall(r"<<<\n(.*?)\n?===\n(.*?)\n?>>>\n", m.group(2), re.S):
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "text found %d times: %s" % (s.count(old), old)
                open(p, "w").write(s.replace(old, new, 1))
        if bad:
            print(sid, bad); continue
        open(out + "/patch.diff", "w").write(subprocess.check_output("git diff", shell=True, cwd=S).decode())
        # the lines it changes are lines of the original repository
        n = 0
        for file in sh("git diff --name-only")[1].split():
            lines = [l for l in sh("git blame -s HEAD -- %s" % file)[1].splitlines()]
            for a, b in re.findall(r"^@@ -(\d+)(?:,(\d+))?", sh("git diff -U0 -- %s" % file)[1], re.M):
                k = int(b) if b else 1
                for l in lines[int(a) - 1:int(a) - 1 + k] if k else []:
                    n += l.startswith("^" + BASE[:6]) or l.startswith(BASE)
                    if not (l.startswith("^" + BASE[:6]) or l.startswith(BASE)):
                        print(sid, "note: changes a line of a fix:", l[:100])
        if not n:
            print(sid, "CHANGES NO ORIGINAL LINE")
            continue
        rc, o = build()
        if rc:
            print(sid, "DOES NOT BUILD", o[-1500:]); continue
        rc, o = sh("./_build/tests/libembedded_test --gtest_brief=1", timeout=300)
        if rc:
            print(sid, "TESTS NOTICE", o[-600:]); continue
        rc, o = sh("bash %s/demo.sh" % out)
        if rc == 0:
            print(sid, "DEMO DOES NOT NOTICE"); continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(out, d)
        if "--nocheck" in sys.argv:
            print(sid, "kept; demo rc", rc); continue
        res = []
        for c in [prop] + meta.get("also", "").split():
            rc2, o = sh("python3-vt /verif/checks/run.py " + c, timeout=900,
                        env=dict(os.environ, VERIF_REPO=S, VERIF_ONCE="1", VERIF_OUT=ROOT + "/out"))
            w = [l for l in o.splitlines() if l.strip()]
            res.append("%s=%d %s" % (c, rc2, (w[0][:300] if w else "") if rc2 else "MISSED"))
        print(sid, "demo rc", rc, "->", " | ".join(res), flush=True)


main()
