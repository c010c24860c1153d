"""Checks C01..C07: circular_buffer_adapter against Ring.tla."""
import hashlib, os, random
from vlib import Violation, CheckError, HARNESS

TRIV = ["u8", "i16", "i32", "u64", "f64", "ptr", "en", "pod12", "big300", "wide"]
TRIVNB = ["dflt"]                       # no bulk copies
FULL = ["tracked", "tracked64", "stringy", "virt", "listy"]
EMPTY = ["emptyt"]
POOLED = ["pooled"]                                          # has an operator new of its own; only in C04
THROWING = ["tracked", "virt", "listy", "emptyt", "tracked64", "copyonly", "moveonly", "triv_tracked"]
COPYONLY = ["copyonly", "triv_tracked"]
MOVEONLY = ["moveonly"]
RO = ["ro8", "ro12"]


def klass(t):
    if t in TRIV:
        return "triv"
    if t in TRIVNB:
        return "trivnb"
    if t in FULL + EMPTY + POOLED:
        return "full"
    if t in COPYONLY:
        return "copyonly"
    if t in MOVEONLY:
        return "moveonly"
    return "ro"


KINDS = {"triv": "cmexla", "trivnb": "cmexla", "full": "cmexla", "copyonly": "cmexla", "moveonly": "mex", "ro": ""}


def allowed(cls, exc, groups, c):
    """may the command (tuple op, k) be sent to this class of type?"""
    op, k = c
    if op in ("pushb", "pushf"):
        return k in KINDS[cls]
    if op in ("failb", "failf"):
        return "fail" in groups and exc and cls in ("full", "copyonly", "moveonly") and k in KINDS[cls]
    if op in ("popb", "popf", "popbn", "popfn", "clear", "set"):
        return cls != "ro" and (op != "set" or "set" in groups)
    if op == "at":
        return "at" in groups
    if op == "itall":
        return "iter" in groups
    if op == "algo":
        return "iter" in groups and cls != "ro" and not (cls == "copyonly" and False)
    if op in ("cinb", "cinf", "coutb", "coutf", "cinr"):
        return "bulk" in groups and cls == "triv"
    if op == "coutr":
        return "bulk" in groups and cls == "triv"
    if op in ("reattach", "move"):
        return "attach" in groups
    return True


def emitted(ctx, maxcap):
    r = ctx.tlc("RingMC", "SPECIFICATION Spec\nCONSTANTS MaxCap = %d\n Emit = TRUE\nACTION_CONSTRAINT EmitStep\n"
                "VIEW view\nCHECK_DEADLOCK FALSE\n" % maxcap, workers=1)
    seen, res = set(), []
    for t in r.printed():
        key = str(t)
        if key not in seen:
            seen.add(key)
            res.append(t)
    if len(res) < 300:
        raise CheckError("the model emitted only %d transitions" % len(res))
    ctx.add("model_transitions_replayed_as_tests", len(res))
    return res


def step_script(tests, cls, exc, groups, attach_form):
    """spec -> code: one fresh adapter per transition of the model"""
    out, n = [], 0
    for t in tests:
        op, k, m, i, q = t["op"], t["k"], t["n"], t["i"], t["q"]
        if not allowed(cls, exc, groups, (op, k)):
            continue
        if op == "at" and not exc and i >= len(q):
            continue
        pos = t["pos"]
        form = attach_form(n)
        if pos == 0 and form in (0, 1, 4, 5) and "attach" in groups and n % 3 == 0:
            pos = t["cap"]
        if form in (2, 3) and (pos or q):
            form = 0
        out.append("new %d %d %d %d %s" % (form, t["cap"], pos, len(q), " ".join(map(str, q))))
        out.append({"pushb": "pushb %s %d" % (k, m), "pushf": "pushf %s %d" % (k, m),
                    "failb": "failb %s %d" % (k, m), "failf": "failf %s %d" % (k, m),
                    "popbn": "popbn %d" % m, "popfn": "popfn %d" % m,
                    "set": "set %s %d %d" % (k, i, m), "at": "at %d" % i,
                    "cinb": "cinb " + toks(m), "cinf": "cinf " + toks(m),
                    "coutb": "coutb %d" % m, "coutf": "coutf %d" % m,
                    "cinr": "cinr %d %d %s" % (i, i + m, toks(m)), "coutr": "coutr %d %d %s" % (i, i + m, k),
                    "reattach": "reattach " + k, "move": "move " + k,
                    "algo": "algo %s %d" % (k, m)}.get(op, op))
        n += 1
        if "attach" in groups and op in ("pushb", "pushf", "cinb", "cinf"):
            out.append("image")
        if op in ("failb", "failf"):
            if "m" in KINDS[cls]:
                out.append("pushb m 77")
    return out, n


def toks(n):
    return " ".join(str(21 + i) for i in range(n))


def random_script(rng, cls, exc, groups, nsess, nops, maxcap, allow_fail=0.0):
    out = []
    for _ in range(nsess):
        cap = rng.choice([1, 2, 3]) if rng.random() < 0.3 else rng.randint(1, maxcap)
        pos = rng.randint(0, cap - 1)
        n = rng.randint(0, cap)
        if cls == "ro":
            n = rng.randint(max(0, cap - 3), cap)
        val = lambda: rng.randint(1, 100)
        if "at" in groups and len(out) > 0 and rng.random() < .3:
            out.append("zero")
        out.append("new %d %d %d %d %s" % (rng.choice([0, 1, 4, 5]), cap, pos, n,
                                           " ".join(str(val()) for _ in range(n))))
        bias = 0.5
        kinds = KINDS[cls]
        for step in range(nops):
            if step % 15 == 0:
                bias = rng.choice([0.25, 0.5, 0.75, 0.9, 0.1])
            c = []
            if kinds:
                if n < cap and rng.random() < bias:
                    k = rng.choice(kinds)
                    if k == "a" and n == 0:
                        k = kinds[0]
                    v = rng.randint(0, n - 1) if k == "a" else val()
                    side = rng.choice("bf")
                    if allow_fail and exc and cls in ("full", "copyonly", "moveonly") and rng.random() < allow_fail:
                        out.append("fail%s %s %d" % (side, k, v))
                        continue
                    out.append("push%s %s %d" % (side, k, v))
                    n += 1
                    if "attach" in groups:
                        out.append("image")
                elif n > 0 and rng.random() > bias:
                    x = rng.random()
                    if x < 0.6:
                        out.append(rng.choice(["popb", "popf"]))
                        n -= 1
                    elif x < 0.95:
                        m = rng.randint(0, n)
                        out.append(rng.choice(["popbn", "popfn"]) + " %d" % m)
                        n -= m
                    else:
                        out.append("clear")
                        n = 0
            if "bulk" in groups and cls == "triv" and rng.random() < 0.5:
                x = rng.random()
                if x < 0.3:
                    m = rng.randint(0, cap - n)
                    out.append(rng.choice(["cinb ", "cinf "]) + " ".join(str(val()) for _ in range(m)))
                    n += m
                    if "attach" in groups:
                        out.append("image")
                elif x < 0.6:
                    m = rng.randint(0, n)
                    out.append(rng.choice(["coutb ", "coutf "]) + str(m))
                    n -= m
                else:
                    i = rng.randint(0, n)
                    j = rng.randint(i, n)
                    if rng.random() < 0.5:
                        out.append("cinr %d %d %s" % (i, j, " ".join(str(val()) for _ in range(j - i))))
                    else:
                        out.append("coutr %d %d %s" % (i, j, rng.choice("cm")))
            r = rng.random()
            if "at" in groups and r < 0.15:
                i = rng.randint(0, n + 3)
                if exc or i < n:
                    out.append("at %d" % i if not exc or rng.random() < .7 else "atx %d %d" % (
                        rng.choice([0, 0, 63, 33, 32, 31, 17]), rng.choice([0, i, rng.randint(0, cap)])))
            elif "set" in groups and r < 0.25 and n > 0 and cls != "ro":
                how = rng.randint(0, 4)
                i = 0 if how == 2 else n - 1 if how == 3 else rng.randint(0, n - 1)
                out.append("set %d %d %d" % (how, i, val()))
            elif "iter" in groups and r < 0.32 and n <= 9:
                out.append("itall")
            elif "iter" in groups and r < 0.42 and cls != "ro":
                k = rng.choice(["reverse", "sort", "rsort", "stable", "rotate"])
                out.append("algo %s %d" % (k, rng.randint(0, n)))
            elif "attach" in groups and r < 0.55:
                if rng.random() < 0.7:
                    out.append("reattach " + rng.choice(["0", "1", "4", "5", "0 end", "1 end"]))
                else:
                    out.append("move " + rng.choice("casof"))
    return out


def run_family(ctx, aspects, groups, types, quick, thorough, defs="", allow_fail=0.0):
    """types: {variant: [types]}"""
    p = thorough if ctx.thorough else quick
    cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\nCONSTANT Aspects = {%s}\n" % (
        ", ".join('"%s"' % a for a in aspects))
    # 1. the design
    ctx.model_check("RingMC", "SPECIFICATION Spec\nCONSTANTS MaxCap = %d\n Emit = FALSE\n"
                    "INVARIANTS TypeOK Refines ExactlyLive CrashSafe\nPROPERTIES NoMove FrontN BackN\nVIEW view\n"
                    "CHECK_DEADLOCK FALSE\n" % p["mc"])
    tests = emitted(ctx, p["emit"])
    # 2. build
    jobs, plan = [], []
    for var, ts in types.items():
        per = p.get("per_exe", 2)
        for g in range(0, len(ts), per):
            grp = ts[g:g + per]
            jobs.append(dict(src=os.path.join(HARNESS, "cb_driver.cpp"), variant=var,
                             defs=defs + " " + " ".join("-DT_" + t for t in grp)))
            plan.append((var, grp))
    exes = ctx.compile_many(jobs)
    # 3. scripts: the same for all types of a class
    scripts = {}
    for cls in sorted({klass(t) for ts in types.values() for t in ts}):
        for exc in (True, False):
            s, n = step_script(tests, cls, exc, groups, lambda i: (0, 1, 4, 5, 2, 3)[i % 6] if "attach" in groups else i % 2)
            rs = []
            for b in range(p["batches"]):
                rng = random.Random("%s/%s/%s/%d" % (ctx.prop, ctx.seed, cls, b))
                rs.append(random_script(rng, cls, exc, groups, p["sess"], p["ops"], p["maxcap"], allow_fail))
            scripts[cls, exc] = [("steps", s)] + [("random%d" % i, r) for i, r in enumerate(rs)]
    # 4. drive
    runs = []
    for (var, grp), exe in zip(plan, exes):
        exc = "emb" not in var
        for t in grp:
            for name, s in scripts[klass(t), exc]:
                if s:
                    runs.append((var, t, exe, name, s))

    def one(r):
        var, t, exe, name, s = r
        label = "circular buffer of %s, build %s, %s" % (t, var, name)
        step = ["step"] if "attach" in groups and "bulk" in groups and t != "stringy" and "asan" not in var else []
        lines = ctx.drive(exe, "\n".join(s) + "\n", args=[t] + step, label=label, timeout=400)
        if len(lines) != len(s):
            raise Violation("%s: %d commands but %d results" % (label, len(s), len(lines)), {"script.txt": "\n".join(s)})
        ctx.add("commands_executed", len(lines))
        return label, t, name, s, lines
    logs = ctx.pmap(one, runs)
    # 5. validate each distinct log
    distinct = {}
    for label, t, name, s, lines in logs:
        h = hashlib.sha256("\n".join(lines).encode()).hexdigest()
        distinct.setdefault(h, (label, s, lines))
    ctx.add("distinct_logs", len(distinct))
    # split long logs at session starts so that all cores are used
    pieces = []
    for h, (label, s, lines) in distinct.items():
        cur = []
        for a in lines:
            if a.startswith('{"op":"new"') and len(cur) >= 2500:
                pieces.append((label, cur))
                cur = []
            cur.append(a)
        pieces.append((label, cur))

    def val(ip):
        i, (label, lines) = ip
        f = ctx.write("trace%d.ndjson" % i, "\n".join(lines) + "\n")
        script = next((s for (lb, s, _) in distinct.values() if lb == label), [])
        ctx.validate("RingTrace", cfg, f, len(lines), label=label,
                     files={"script.txt": "\n".join(script) + "\n"})
        os.unlink(f)
    ctx.pmap(val, enumerate(pieces), workers=7)
    ctx.add("traces_validated_against_impl", len(logs))
    for label, t, name, s, lines in logs[:3]:
        ctx.sample({"log": label, "commands": s[:6], "events": lines[1:3]})
    ctx.assumptions += ["preconditions documented as assertions are respected (no insertion into a full buffer)"]


def big_script(rng, caps, nops, bulk):
    """macro operations on large buffers"""
    out = []
    for cap in caps:
        pos = rng.choice([0, 1, cap - 1, cap // 2, max(0, cap - 200), min(cap - 1, 255), min(cap - 1, 65535), rng.randrange(cap)])
        n = rng.choice([0, cap, cap - 1, cap // 2, min(cap, 256), rng.randint(0, cap)])
        out.append("new %d %d %d %d" % (rng.randint(0, 1), cap, pos, n))
        for _ in range(nops):
            some = lambda m: min(m, rng.choice([0, 1, 2, m, m, m - 1 if m else 0, m // 2, 127, 255, 256, rng.randint(0, m)]))
            r, room = rng.random(), cap - n
            if r < 0.4:
                k = some(room)
                out.append("%s %d" % (rng.choice(["pushb", "pushf"] + (["cinb", "cinf"] if bulk else [])), k))
                n += k
            elif r < 0.75:
                k = some(n)
                out.append("%s %d" % (rng.choice(["popb", "popf", "popbn", "popfn"] + (["coutb", "coutf"] if bulk else [])), k))
                n -= k
            elif r < 0.8:
                out.append("clear 0")
                n = 0
            elif r < 0.88 or not bulk:
                out.append("reattach %d" % rng.randint(0, 1))
            else:
                i = rng.choice([0, n, rng.randint(0, n), max(0, n - 256)])
                k = some(n - i)
                if rng.random() < 0.5:
                    out.append("outr %d %d" % (k, i))
                else:
                    out += ["over %d %d" % (k, i), "unover %d %d" % (k, i)]
    return out


BIGCAPS = [127, 128, 129, 255, 256, 257, 300, 511, 1000, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072]


def huge_script(rng, caps, nops):
    """buffers counted in units of 2^20 elements; insertions touch memory, so they are small"""
    out = []
    for cap in caps:
        pos = rng.choice([0, 1, cap - 1, cap // 2, min(cap - 1, 2048), min(cap - 1, 4096), rng.randrange(cap)])
        n = rng.choice([cap, cap - 1, cap, min(cap, 4097), min(cap, 2049), rng.randint(cap // 2, cap)])
        if not out:                                    # all distances, also without wrapping
            pos, n = rng.randint(0, 1), cap - rng.randint(0, 1)
        out.append("new %d %d %d %d" % (rng.randint(0, 1), cap, pos, n))
        for _ in range(nops):
            r = rng.random()
            if r < 0.3 and n < cap:
                k = rng.randint(1, min(2, cap - n))
                out.append("%s %d" % (rng.choice(["pushb", "pushf", "cinb", "cinf"]), k))
                n += k
            elif r < 0.5 and n:
                k = rng.choice([n, 1, min(n, 2048), min(n, 4096), rng.randint(1, n), rng.randint(1, n)])
                if n - k < 2 and rng.random() < .7:
                    k = n // 2
                out.append("%s %d" % (rng.choice(["popbn", "popfn"]), k))
                n -= k
            elif r < 0.65 and n:
                k = rng.randint(1, min(2, n))
                out.append("%s %d" % (rng.choice(["popb", "popf", "coutb", "coutf"]), k))
                n -= k
            elif r < 0.67:
                out.append("clear 0")
                n = 0
            elif r < 0.8:
                out.append("reattach %d" % rng.randint(0, 1))
            elif n >= 2:
                i = rng.choice([0, n - 2, rng.randint(0, n - 2), min(n - 2, 4096), min(n - 2, 2047)])
                k = rng.randint(0, 2)
                if rng.random() < 0.5:
                    out.append("outr %d %d" % (k, i))
                else:
                    out += ["over %d %d" % (k, i), "unover %d %d" % (k, i)]
    return out


def big(ctx, aspects, types, huge=()):
    """capacities far beyond those the model can enumerate: validated against RingBig, which refines Ring"""
    ctx.model_check("RingBigMC", "SPECIFICATION Spec\nCONSTANT MaxCap = %d\nPROPERTY Refines\nINVARIANT RunsRight\n"
                    "CONSTRAINT Window\nCHECK_DEADLOCK FALSE\n" % (5 if ctx.thorough else 3))
    cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\nCONSTANT Aspects = {%s}\n" % (
        ", ".join('"%s"' % a for a in aspects))
    vs = sorted({v for v, _ in types})
    exes = dict(zip(vs, ctx.compile_many([dict(src=os.path.join(HARNESS, "cb_big.cpp"), variant=v) for v in vs])))
    jobs = []
    for v, t in types:
        for b in range(6 if ctx.thorough else 1):
            rng = random.Random("%s/%s/big/%s/%d" % (ctx.prop, ctx.seed, t, b))
            caps = list(BIGCAPS)
            if ctx.thorough:
                caps += [rng.randint(100, 200000) for _ in range(6)] + [1 << 20, (1 << 20) + 1, 2000000]
            jobs.append((v, t, big_script(rng, caps, 10, t != "tracked"), exes[v]))
    hs = sorted({v for v, _ in huge})
    hexes = dict(zip(hs, ctx.compile_many([dict(src=os.path.join(HARNESS, "cb_huge.cpp"), variant=v) for v in hs])))
    for v, t in huge:
        rng = random.Random("%s/%s/huge/%s" % (ctx.prop, ctx.seed, t))
        caps = [6001, 4096, 2049, 4100] if t == "u8" else [4200, 1100, 2060]
        jobs.append((v, t, huge_script(rng, caps * (4 if ctx.thorough else 1), 12), hexes[v]))

    def one(i_job):
        i, (v, t, s, exe) = i_job
        label = "large circular buffer of %s, build %s" % (t, v)
        lines = ctx.drive(exe, "\n".join(s) + "\n", args=[t], label=label, timeout=400)
        if lines and '"op":"skip"' in lines[-1]:
            ctx.assumptions.append("the machine offered too little address space for buffers beyond 2^32 elements")
            lines = lines[:-1]
            if not lines:
                return
        elif len(lines) != len(s):
            raise Violation("%s: %d commands but %d results" % (label, len(s), len(lines)), {"script.txt": "\n".join(s)})
        f = ctx.write("big%d.ndjson" % i, "\n".join(lines) + "\n")
        ctx.validate("RingBigTrace", cfg, f, len(lines), label=label, files={"script.txt": "\n".join(s) + "\n"})
        os.unlink(f)
        ctx.add("commands_executed", len(lines))
        ctx.cov["traces_validated_against_impl"] += 1
    ctx.pmap(one, enumerate(jobs))
    ctx.add("large_buffers", sum(1 for _, _, s, _ in jobs for l in s if l.startswith("new")))


ALLT = TRIV + TRIVNB + FULL + COPYONLY + MOVEONLY
Q = dict(mc=3, emit=4, batches=2, sess=25, ops=50, maxcap=12)
T = dict(mc=4, emit=6, batches=12, sess=80, ops=120, maxcap=20)


def c01(ctx):
    v = {"asan": ["u8", "pod12", "tracked", "moveonly"], "o2": ["i32", "wide", "stringy", "copyonly", "dflt", "ro8", "listy"],
         "emb": ["u8", "tracked"], "clang": ["u64", "tracked64"]}
    if ctx.thorough:
        v = {"asan": ALLT, "o2": ALLT + RO, "emb": ALLT + RO, "clang": ALLT + RO, "asan20": ["i16", "tracked", "big300"],
             "clang11": ["i16", "stringy"], "o3": ALLT, "c14": ["en", "ptr", "moveonly"]}
    run_family(ctx, ["deque"], {"at", "set"}, v, Q, T)
    big(ctx, ["deque"], [("o2", "u8"), ("asan", "tracked"), ("emb", "i32")], huge=[("o2", "u8")])


def c02(ctx):
    v = {"asan": ["u8", "pod12", "tracked"], "o2": ["big300", "wide", "tracked64", "moveonly"],
         "emb": ["i16", "tracked"], "clang": ["u64", "stringy"]}
    if ctx.thorough:
        v = {"asan": ALLT, "o2": ALLT, "emb": ALLT, "clang": ALLT, "o3": ALLT, "asan20": ["u8", "tracked"]}
    run_family(ctx, ["deque", "place", "still"], {"at", "set", "bulk"}, v, Q, T, defs="-DWITH_BULK")
    big(ctx, ["deque", "place"], [("o2", "pod12"), ("asan", "u8"), ("clang", "tracked")], huge=[("o2", "i32")])


def c03(ctx):
    v = {"asan": ["u8", "pod12"], "o2": ["i32", "wide", "tracked", "ro12"], "emb": ["u8", "big300"], "clang": ["u64", "moveonly"]}
    if ctx.thorough:
        v = {"asan": ALLT, "o2": ALLT + RO, "emb": ALLT, "clang": ALLT + RO, "o3": ALLT}
    run_family(ctx, ["deque", "place"], {"attach", "bulk"}, v, Q, T, defs="-DWITH_BULK")
    big(ctx, ["deque", "place"], [("o2", "u8"), ("emb", "pod12")], huge=[("emb", "u8")])


def c04(ctx):
    ty = FULL + COPYONLY + MOVEONLY + EMPTY + POOLED
    v = {"asan": ["tracked", "stringy", "copyonly", "moveonly"], "o2": ["tracked", "tracked64", "triv_tracked", "emptyt", "listy"],
         "emb": ["virt", "copyonly"], "clang": ["emptyt", "pooled"]}
    if ctx.thorough:
        v = {k: ty for k in ("asan", "o2", "emb", "clang", "o3", "asan20", "clang11", "c11")}
    run_family(ctx, ["life"], {"attach", "set"}, v, Q, T)
    big(ctx, ["deque", "life"], [("o2", "tracked"), ("asan", "tracked")])


def c05(ctx):
    v = {"asan": ["tracked", "moveonly"], "o2": ["tracked64", "copyonly", "emptyt", "virt"], "clang": ["triv_tracked", "tracked", "listy"],
         "c11": ["tracked"]}
    if ctx.thorough:
        v = {k: THROWING for k in ("asan", "o2", "clang", "o3", "asan20", "c11")}
    run_family(ctx, ["deque", "place", "life", "still", "fault"], {"fail"}, v, Q, T, allow_fail=0.4)


def c06(ctx):
    v = {"asan": ["u8", "tracked"], "o2": ["pod12", "moveonly", "ro8"], "emb": ["i16"], "clang": ["u64", "tracked"],
         "c20": ["i32"]}
    q, t = dict(Q), dict(T)
    q.update(per_exe=1, emit=4, sess=15, ops=40, batches=2, maxcap=8)
    t.update(per_exe=1, emit=5, batches=8, sess=40, maxcap=10)
    if ctx.thorough:
        s = ["u8", "i16", "pod12", "wide", "tracked", "moveonly", "stringy"]
        v = {"asan": s, "o2": s + RO, "emb": s, "clang": s + RO, "c20": s, "clang11": s}
    run_family(ctx, ["deque", "iter"], {"iter"}, v, q, t, defs="-DWITH_ITER")
    big(ctx, ["deque", "iter"], [("o2", "u8"), ("asan", "i32"), ("clang", "tracked")], huge=[("clang", "u8")])


def c07(ctx):
    v = {"asan": ["u8", "pod12"], "o2": ["i16", "big300", "wide", "f64"], "emb": ["i32", "ptr"], "clang": ["u64", "en"]}
    if ctx.thorough:
        v = {k: TRIV for k in ("asan", "o2", "emb", "clang", "o3", "asan20")}
    run_family(ctx, ["deque", "place", "bulk"], {"bulk"}, v, dict(Q, emit=5), T, defs="-DWITH_BULK")
    big(ctx, ["deque", "place", "bulk"], [("o2", "u8"), ("asan", "i32"), ("emb", "pod12")], huge=[("clang", "i32")])


CHECKS = {"C01": ("model_checking", c01), "C02": ("model_checking", c02), "C03": ("model_checking", c03),
          "C04": ("model_checking", c04), "C05": ("model_checking", c05), "C06": ("model_checking", c06),
          "C07": ("model_checking", c07)}
