"""Check M01: embedded::lock_guard against LockGuard.tla."""
import json, os
from vlib import Violation, CheckError, HARNESS, VARIANTS

VARIANTS.setdefault("tsan", ("g++", "-std=gnu++17 -O1 -g -fsanitize=thread -fno-sanitize-recover=all"))

TCFG = ("SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
        " Threads = {1,2,3,4,5,6,7,8}\n Mutexes = {1,2,3,4}\n Recursive = {3}\n")


def mcfg(threads, mutexes, rec, depth, cmds, emit, throwing, spec="Spec", extra=""):
    return ("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Threads = %s\n Mutexes = %s\n Recursive = %s\n MaxDepth = %d\n"
            " MaxCmds = %d\n Emit = %s\n Throwing = %s\nINVARIANTS Exclusion Exact Balanced Guarded %s\n%s" % (
                spec, threads, mutexes, rec, depth, cmds, emit, throwing, "Emitted" if emit == "TRUE" else "", extra))


def schedules(ctx, *a, **kw):
    sim = kw.pop("sim", 0)
    if sim:
        r = ctx.tlc("LockGuardMC", mcfg(*a), workers=1, timeout=600,
                    opts="-simulate num=%d -depth 200 -seed %d" % (sim, ctx.seed))
    else:
        r = ctx.model_check("LockGuardMC", mcfg(*a), timeout=600)
    return [" ".join(str(x) for c in s["c"] for x in c) for s in r.printed()]


def m01(ctx):
    th = ctx.thorough
    # all interleavings of the individual steps
    ctx.model_check("LockGuardMC", mcfg("{1,2,3}" if th else "{1,2}", "{1,2}", "{2}", 2, 0, "FALSE", "TRUE", "FreeSpec",
                                        "CONSTRAINT Bound\nVIEW FreeView\n"), timeout=850)
    # complete sets of schedules for one and two threads, samples for three threads and four mutexes
    one = schedules(ctx, "{1}", "{1,3}", "{3}", 3, 6 if th else 5, "TRUE", "TRUE")
    two = schedules(ctx, "{1,2}", "{1}", "{}", 2, 6 if th else 5, "TRUE", "TRUE")
    calm = schedules(ctx, "{1,2}", "{1,3}", "{3}", 2, 6 if th else 5, "TRUE", "FALSE")
    wide = schedules(ctx, "{1,2,3}", "{1,2,3,4}", "{3}", 4, 22, "TRUE", "TRUE", sim=2500 if th else 250)
    calmwide = schedules(ctx, "{1,2,3}", "{1,2,3,4}", "{3}", 4, 22, "TRUE", "FALSE", sim=1000 if th else 120)
    lim = 20000 if th else 700
    pick = lambda s: s if len(s) <= lim else ctx.rng.sample(sorted(s), lim)
    ctx.add("schedules_in_model", len(set(one)) + len(set(two)) + len(set(calm)))
    throwing = pick(list(set(one))) + pick(list(set(two))) + list(set(wide))
    quiet = pick(list(set(calm))) + list(set(calmwide))
    ctx.rng.shuffle(throwing)
    ctx.rng.shuffle(quiet)
    src = os.path.join(HARNESS, "lock_driver.cpp")
    vs = ["asan", "o2", "emb", "c11", "clang"] + (["o3", "dbg", "c20", "clang11", "clang_emb"] if th else [])
    exes = dict(zip(vs + ["tsan"], ctx.compile_many([dict(src=src, variant=v, extra="-pthread") for v in vs + ["tsan"]])))

    def part(s, n):
        k = max(1, len(s) // n)
        return [s[i::k] for i in range(k)]

    jobs = []
    for v in vs:
        s = quiet if "emb" in v else quiet + throwing
        if v not in ("asan", "o2", "emb") and not th:
            s = s[::4]
        for i, p in enumerate(part(s, 350)):
            jobs.append((v, i, p))

    def run(j):
        v, i, p = j
        label = "lock guards, build %s, part %d" % (v, i)
        lines = ctx.drive(exes[v], "\n".join(p) + "\n", label=label)
        return label, "\n".join(p), lines
    logs = ctx.pmap(run, jobs)

    def free(j):
        v, n, rounds, seed = j
        label = "free running threads, build %s, %d threads, seed %d" % (v, n, seed)
        lines = ctx.drive(exes[v], "", label=label, args=("free", str(n), str(rounds), str(seed)))
        last = json.loads(lines[-1])
        if last["op"] != "sums":
            raise CheckError("free run incomplete")
        if last["want"] != last["got"]:
            raise Violation("%s: updates under guards were lost: %s" % (label, last), {"events.ndjson": "\n".join(lines)})
        return label, "", lines[:-1]
    fj = [(v, n, 120 if th else 60, ctx.seed * 100 + k) for v in ("o2", "clang", "tsan")
          for n in ((2, 3, 4, 8) if th else (2, 4)) for k in range(6 if th else 2)]
    frees = ctx.pmap(free, fj, workers=2)
    logs += frees
    for label, s, lines in logs:
        ctx.add("events_logged", len(lines))
    distinct = {}
    for label, s, lines in logs:
        distinct.setdefault("\n".join(lines), (label, s, lines))

    def val(ix):
        n, (label, s, lines) = ix
        f = ctx.write("v%d.ndjson" % n, "\n".join(lines) + "\n")
        ctx.validate("LockGuardTrace", TCFG, f, len(lines), label=label, files={"script.txt": s})
    ctx.pmap(val, enumerate(distinct.values()), workers=7)
    ctx.add("traces_validated_against_impl", len(logs))
    ctx.add("schedules_replayed", sum(len(p) for _, _, p in jobs))
    for label, s, lines in logs[:2] + frees[:1]:
        ctx.sample({"log": label, "schedules": s.splitlines()[:2], "events": lines[:6]})
    ctx.assumptions += ["free-running threads are sampled schedules of the platform; the complete interleavings are those of the model, "
                        "replayed one step at a time"]


CHECKS = {"M01": ("model_checking", m01)}
