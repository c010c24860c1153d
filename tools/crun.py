#!/usr/bin/env python3-vt
"""As checks/run.py, for experiments on many variants of the code: TLC runs on inputs seen before are not repeated."""
import hashlib, os, pickle, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
import vlib
CACHE = os.environ.get("TLC_CACHE", "/tmp/tlccache")
os.makedirs(CACHE, exist_ok=True)
SPECS = hashlib.sha256(b"".join(open(os.path.join(vlib.SPEC, f), "rb").read() for f in sorted(os.listdir(vlib.SPEC)) if f.endswith(".tla"))).hexdigest()
real = vlib.Ctx.tlc


def tlc(self, module, cfg, env=None, workers="auto", opts="", timeout=600, heap="3g", ok=(0,), tag=None):
    h = hashlib.sha256((SPECS + module + cfg + opts + str(workers == 1)).encode())
    for k in sorted(env or {}):
        v = str(env[k])
        h.update(k.encode() + (open(v, "rb").read() if os.path.isfile(v) else v.encode()))
    f = os.path.join(CACHE, h.hexdigest())
    if os.path.exists(f):
        return pickle.load(open(f, "rb"))
    r = real(self, module, cfg, env=env, workers=workers, opts=opts, timeout=timeout, heap=heap, ok=ok, tag=tag)
    if r.rc != "timeout":
        t = f + ".%d.%d" % (os.getpid(), id(r))
        pickle.dump(r, open(t, "wb"))
        os.replace(t, f)
    return r


vlib.Ctx.tlc = tlc
sys.argv[0] = os.path.join(ROOT, "checks", "run.py")
exec(compile(open(sys.argv[0]).read(), sys.argv[0], "exec"), {"__name__": "__main__", "__file__": sys.argv[0]})
