"""Check W01: embedded::move_wrapper against MoveWrapper.tla."""
import os, random
from vlib import Violation, CheckError, HARNESS

PAYLOADS = ["counted", "single", "thrower", "sthrower", "cthrower", "owner", "aggr", "list", "number", "wide", "greedy", "coy"]
THROWING = {"thrower", "sthrower", "cthrower"}


def tcfg(plain):
    return ("SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Slots = {0,1,2,3,4,5,6,7}\n"
            " Plain = %s\n" % ("TRUE" if plain else "FALSE"))


def mcfg(w, c, ops, emit, throwing):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Slots = {%s}\n Wrappers = {%s}\n Closures = {%s}\n MaxOps = %d\n"
            " MaxSlots = 8\n Emit = %s\n Throwing = %s\nINVARIANTS Unique Conserved Emitted\n" % (
                ",".join(map(str, w + c)), ",".join(map(str, w)), ",".join(map(str, c)), ops, emit, throwing))


def cmds(s):
    return [" ".join(str(x) for x in c) for c in s["c"]]


def extend(rng, hist, fn):
    """puts some results of a history into functions (places 6 and 7), with final reads"""
    out = list(hist)
    full, alive = set(), set()
    for h in hist:
        w = h.split()
        if w[0] == "make":
            alive.add(w[1]), full.add(w[1])
        elif w[0] == "del":
            alive.discard(w[1]), full.discard(w[1])
        elif w[0] in ("cp", "ccp", "mv", "cmv", "byval", "cap"):
            alive.add(w[1])
            if w[2] in full:
                full.discard(w[2]), full.add(w[1])
    closures = [c for c in ("4", "5") if c in alive]
    rng.shuffle(closures)
    if fn and closures:
        out += ["fn 6 " + closures[0], "get 6"]
        if closures[0] in full:
            out.append("set 6 %d" % rng.randint(900, 999))
        if len(closures) == 2:
            out.append("fn 7 " + closures[1])
        else:
            out += ["mv 7 6", "del 6"]
    return out


def w01(ctx):
    th = ctx.thorough
    ctx.model_check("MoveWrapperMC", mcfg([0, 1], [4], 6 if th else 5, "FALSE", "TRUE"))
    calm = ctx.model_check("MoveWrapperMC", mcfg([0, 1], [4], 4, "TRUE", "FALSE"), workers=1, timeout=800).printed()
    rough = ctx.model_check("MoveWrapperMC", mcfg([0, 1], [4], 4, "TRUE", "TRUE"), workers=1, timeout=800).printed()
    sim = lambda t: ctx.tlc("MoveWrapperMC", mcfg([0, 1, 2, 3], [4, 5], 30, "TRUE", t), workers=1,
                            opts="-simulate num=%d -depth 40 -seed %d" % (2000 if th else 150, ctx.seed)).printed()
    calm = [cmds(s) for s in calm] + [cmds(s) for s in sim("FALSE")]
    rough = [cmds(s) for s in rough] + [cmds(s) for s in sim("TRUE")]
    ctx.add("histories_in_model", len(calm) + len(rough))
    if not (calm and rough):
        raise CheckError("no histories")
    src = os.path.join(HARNESS, "mw_driver.cpp")
    vs = ["asan", "o2", "emb", "c11", "clang"] + (["asan20", "o3", "dbg", "c14", "clang11", "clang_emb", "clang_asan"] if th else [])
    exes = dict(zip(vs, ctx.compile_many([dict(src=src, variant=v) for v in vs])))
    jobs = []
    for p in PAYLOADS:
        rng = random.Random("%s/%s/%s" % (ctx.prop, ctx.seed, p))
        hs = rough if p in THROWING else calm
        lim = 4000 if th else 350
        hs = hs if len(hs) <= lim else rng.sample(hs[:-150], lim - 120) + hs[-120:]
        s = []
        for h in hs:
            s.append("reset")
            s += extend(rng, h, p not in THROWING)
        s.append("reset")
        for v in vs:
            if p in THROWING and "emb" in v:
                continue
            jobs.append((p, v, s))

    def run(j):
        p, v, s = j
        label = "move wrapper of '%s', build %s" % (p, v)
        lines = ctx.drive(exes[v], "\n".join(s) + "\n", label=label, args=(p,))
        if len(lines) != len(s):
            raise Violation("%s: %d operations but %d results" % (label, len(s), len(lines)), {"script.txt": "\n".join(s)})
        return p, label, s, lines
    logs = ctx.pmap(run, jobs)
    distinct = {}
    for p, label, s, lines in logs:
        ctx.add("operations_logged", len(lines))
        distinct.setdefault((p, "\n".join(lines)), (p, label, s, lines))

    def val(ix):
        n, (p, label, s, lines) = ix
        f = ctx.write("v%d.ndjson" % n, "\n".join(lines) + "\n")
        ctx.validate("MoveWrapperTrace", tcfg(p == "number"), f, len(lines), label=label,
                     files={"script.txt": "\n".join(s) + "\n", "payload.txt": p})
    ctx.pmap(val, enumerate(distinct.values()), workers=7)
    ctx.add("traces_validated_against_impl", len(logs))
    for p, label, s, lines in logs[::7][:3]:
        ctx.sample({"log": label, "operations": s[:6], "events": lines[:6]})
    ctx.assumptions += ["payloads are twelve instrumented types: copyable, move-only, throwing on move, owning memory, aggregate, "
                        "list-constructible, trivial, over-aligned, with greedy constructors, with an address-of operator of its own"]


CHECKS = {"W01": ("model_checking", w01)}
