"""Shared machinery of the checks: building drivers from /repo, running TLC, evidence, reporting."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8

# Build variants of a driver.  (compiler, flags)
VARIANTS = {
    # assertions on, memory errors visible
    "asan": ("g++", "-std=gnu++17 -O1 -g -fsanitize=address,undefined -fno-sanitize=nonnull-attribute "
                    "-fno-sanitize-recover=all -fno-omit-frame-pointer"),
    "asan20": ("g++", "-std=gnu++20 -O1 -g -fsanitize=address,undefined -fno-sanitize=nonnull-attribute "
                      "-fno-sanitize-recover=all -fno-omit-frame-pointer"),
    # as the repository is built
    "o2": ("g++", "-std=gnu++17 -O2 -g -DNDEBUG"),
    "o3": ("g++", "-std=gnu++17 -O3 -DNDEBUG"),
    "dbg": ("g++", "-std=gnu++17 -O0"),
    # embedded profile
    "emb": ("g++", "-std=c++11 -Os -DNDEBUG -fno-exceptions -fno-rtti"),
    "c11": ("g++", "-std=c++11 -O1"),
    "c14": ("g++", "-std=c++14 -O1"),
    "c20": ("g++", "-std=c++20 -O2"),
    "clang": ("clang++", "-std=c++17 -O2 -DNDEBUG"),
    "clang11": ("clang++", "-std=c++11 -O1"),
    "clang_emb": ("clang++", "-std=c++11 -O2 -DNDEBUG -fno-exceptions -fno-rtti"),
    "clang_asan": ("clang++", "-std=c++17 -O1 -g -fsanitize=address,undefined -fno-sanitize=nonnull-attribute "
                              "-fno-sanitize-recover=all"),
    "msan": ("clang++", "-std=c++17 -O1 -g -fsanitize=memory -fno-sanitize-recover=all"),
}


def alternatives(variant, newest):
    cxx, flags = VARIANTS[variant]
    res = [(cxx, flags)]
    for c in (cxx, "g++"):
        for std in ("c++14", newest):
            f = re.sub(r"-std=\S+", "-std=" + std, flags)
            if c != cxx:
                f = f.replace("-fsanitize=memory", "")
            if (std != "c++14" or "-std=c++11" in flags) and (c, f) not in res:
                res.append((c, f))
    return res


class Violation(Exception):
    """The code under test broke the property.  files: name -> text for the replay directory."""

    def __init__(self, what, files=None):
        super().__init__(what)
        self.what = what
        self.files = files or {}


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?,? (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = int(m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0

    def printed(self):
        """JSON values printed with PrintT(ToJson(..))"""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"') and line.endswith('"') and len(line) > 2 and line[1] in "{[":
                res.append(json.loads(json.loads(line)))
        return res


OUT = os.environ.get("VERIF_OUT", VERIF)     # experiments write elsewhere


class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.out = os.path.join(OUT, "out", prop)
        self.t0 = time.time()
        self.reset()

    # ---- bookkeeping
    def reset(self):
        self.work = os.path.join(self.out, "work")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.java = ""                # class path of operator overrides
        self.n = 0
        self.rng = random.Random("%s/%s" % (self.prop, self.seed))

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def path(self, name):
        return os.path.join(self.work, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    # ---- running things
    def run(self, cmd, timeout=300, inp=None, env=None, cwd=None, mem_gb=None):
        e = dict(os.environ)
        e.update(env or {})
        pre = None
        try:
            p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, env=e, cwd=cwd or self.work, shell=isinstance(cmd, str),
                               preexec_fn=pre)
            return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired as t:
            return "timeout", (t.stdout or b"").decode("utf8", "replace"), (t.stderr or b"").decode("utf8", "replace")

    def pmap(self, fn, items, workers=NCPU):
        items = list(items)
        if not items:
            return []
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(fn, x) for x in items]
            err = None
            res = []
            for f in futs:
                try:
                    res.append(f.result())
                except Violation as v:          # a violation wins over an error of the check
                    err = v if not isinstance(err, Violation) else err
                except Exception as x:
                    err = err or x
            if err:
                raise err
            return res

    # ---- compiling
    def compile_one(self, src, variant, defs="", out=None, extra="", syntax_only=False, includes="", newest="gnu++17"):
        """Compiles for one variant.  What only the older standards or the other compiler reject is not a violation: such a
        variant is built as the repository itself is built (g++, gnu++17; newest: how far the standard may go up)."""
        tried = None
        for cxx, flags in alternatives(variant, newest):
            try:
                r = self.compile_with(cxx, flags, src, variant, defs, out, extra, syntax_only, includes)
                if tried:
                    self.add("builds_with_a_newer_standard")
                return r
            except Violation as v:
                if "static assertion failed" in v.files.get("compile.txt", ""):
                    raise
                tried = tried or v
        raise tried

    def compile_with(self, cxx, flags, src, variant, defs, out, extra, syntax_only, includes):
        out = out or self.path("%s.%s%s" % (os.path.splitext(os.path.basename(src))[0], variant,
                                            re.sub(r"\W", "_", defs)))
        tail = "-fsyntax-only" if syntax_only else "-o %s" % out
        cmd = "%s %s -w -fno-diagnostics-color -I%s/include -I%s %s %s %s %s %s" % (
            cxx, flags, REPO, HARNESS, includes, defs, src, extra, tail)
        rc, o, e = self.run(cmd, timeout=600)
        self.add("compilations")
        if rc != 0:
            # is it the toolchain or the code?
            ctl = self.write("control_%d.cpp" % abs(hash((src, variant, defs))),
                             "#include <cstdio>\n#include <vector>\nint main(){std::vector<int> v(3);return v.size()!=3;}\n")
            crc, _, ce = self.run("%s %s %s -o %s.bin" % (cxx, flags, ctl, ctl), timeout=300)
            if crc != 0 or rc == "timeout" or "Killed" in e or "out of memory" in e or "No space left" in e:
                raise CheckError("cannot compile: %s\n%s\n%s" % (cmd, e[-3000:], ce[-1000:]))
            raise Violation("a client program that uses the public interface no longer compiles (%s): %s" % (
                variant, first_error(e)), {"compile.txt": cmd + "\n" + e[:20000]})
        return out

    def compile_many(self, jobs):
        """jobs: list of dicts for compile_one -> list of executables"""
        return self.pmap(lambda j: self.compile_one(**j), jobs)

    # ---- TLC
    def tlc(self, module, cfg, env=None, workers="auto", opts="", timeout=600, heap="3g", ok=(0,), tag=None):
        self.n += 1
        d = self.path("tlc%d_%s%s" % (self.n, module, "_" + tag if tag else ""))
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = "java %s -Xmx%s -Xss64m -cp %s tlc2.TLC -config M.cfg -metadir %s/states -noGenerateSpecTE -workers %s %s %s.tla" % (
            gc, heap, self.java + TLA_CP, d, workers, opts, module)
        t = time.time()
        rc, o, e = self.run(cmd, timeout=timeout, env=env, cwd=d)
        r = Tlc(rc, o + e, time.time() - t)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        if rc not in ok:
            raise CheckError("TLC failed (%s) on %s:\n%s" % (rc, module, (o + e)[-4000:]))
        return r

    def overrides(self):
        """Compiles java/ and puts it on TLC's class path."""
        d = self.path("java")
        os.makedirs(d, exist_ok=True)
        src = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java"))) if f.endswith(".java")]
        rc, o, e = self.run(["javac", "-nowarn", "-cp", TLA_CP, "-d", d] + src, timeout=200)
        if rc != 0:
            raise CheckError("javac: %s" % (o + e)[-2000:])
        self.java = d + ":"

    def model_check(self, module, cfg, **kw):
        """The specification itself must satisfy its invariants: anything else is an error of the check."""
        r = self.tlc(module, cfg, **kw)
        self.add("states", r.distinct)
        self.add("transitions", r.generated)
        return r

    def validate(self, module, cfg, tracefile, nevents, env=None, label="", timeout=700, heap="3g", files=None,
                 context=12):
        """Trace validation; raises Violation when the trace is not a behaviour of the specification."""
        e = {"TRACE": tracefile}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap, ok=None or range(0, 256))
        out = r.out
        if r.rc == "timeout":
            raise CheckError("trace validation timed out: %s" % label)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m and "The error occurred when TLC was evaluating" in out:
            # the inputs of the events are fixed: only logged results of a different kind or size get here
            with open(tracefile) as f:
                lines = f.read().splitlines()
            k = min(int(m[-1]) - 1, len(lines) - 1)
            i = out.index("Error: ")
            raise Violation("%s: event %d cannot be evaluated by the specification (%s): %s" % (
                label, k + 1, " ".join(out[i:i + 600].split())[:300], lines[k][:1500]),
                dict({"trace.ndjson": "\n".join(lines[:k + 1]) + "\n", "tlc.txt": out[i:i + 5000]}, **(files or {})))
        if not m or "Error: " in out and "ostcondition" not in out and "POSTCONDITION" not in out:
            raise CheckError("TLC failed on trace %s: %s" % (label, out[-4000:]))
        reached = int(m[-1]) - 1
        if reached < nevents:
            with open(tracefile) as f:
                lines = f.read().splitlines()
            bad = lines[reached] if reached < len(lines) else "?"
            lo = max(0, reached - context)
            raise Violation("%s: the specification does not allow event %d: %s" % (label, reached + 1, bad[:1500]),
                            dict({"trace.ndjson": "\n".join(lines[:reached + 1]) + "\n",
                                  "tail.txt": "\n".join(lines[lo:reached + 1]) + "\n", "tlc.txt": out[-5000:]},
                                 **(files or {})))
        if "Error: " in out:
            raise CheckError("TLC reported an error on trace %s: %s" % (label, out[-3000:]))
        self.add("trace_events", nevents)
        return r

    # ---- drivers
    def drive(self, exe, script, timeout=240, label="", args=()):
        """Runs a driver on a command script (text); returns the list of event lines."""
        env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1",
               "UBSAN_OPTIONS": "print_stacktrace=0"}
        rc, o, e = self.run([exe] + list(args), inp=script.encode(), timeout=timeout, env=env)
        lines = [l for l in o.splitlines() if l.startswith("{")]
        if rc != 0:
            done = len(lines)
            raise Violation("%s: the program under test ended abnormally (%s) after %d events: %s" % (
                label, rc, done, first_error(e)),
                {"script.txt": script, "events.ndjson": o, "stderr.txt": e[-8000:]})
        return lines


def first_error(e):
    for l in e.splitlines():
        if "error" in l.lower() or "assert" in l.lower() or "ERROR" in l:
            return l.strip()[:400]
    return e.strip()[-300:]


def load_known():
    """known-findings.txt lines: 'finding: property=<id> key=<regex> <what fails>' / 'fixed: ...'"""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                res.append(m.groups())
    return res


def main(prop, level, fn):
    ctx = Ctx(prop, level)
    first = None
    rc = 0
    for attempt in (1, 2):
        try:
            ctx.reset()
            fn(ctx)
            if first:
                print("CHECK-ERROR: a violation did not repeat: %s" % first.what)
                rc = 2
            break
        except Violation as v:
            if first is None and not os.environ.get("VERIF_ONCE"):
                first = v
                print("candidate violation, repeating: %s" % v.what[:600], flush=True)
                continue
            first = v
            rc = 1
            break
        except CheckError as x:
            print("CHECK-ERROR: %s" % x)
            rc = 2
            break
        except Exception:
            traceback.print_exc()
            rc = 2
            break
    ev = {"property": prop, "tier": "thorough" if ctx.thorough else "quick", "seed": ctx.seed, "level": level,
          "coverage": ctx.cov, "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 1),
          "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 1:
        d = os.path.join(ctx.out, "violation")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "what.txt"), "w") as f:
            f.write(first.what + "\n")
        for k, t in first.files.items():
            with open(os.path.join(d, k), "w") as f:
                f.write(t)
        print(first.what[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(d, VERIF)))
    elif rc == 0:
        print("OK property=%s tier=%s wall=%.1fs %s" % (prop, ev["tier"], ev["wall_s"], json.dumps(
            {k: v for k, v in ctx.cov.items() if k != "samples"})))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    return rc
