"""Checks V01..V04: embedded::varint against Varint.tla."""
import os, random
from vlib import Violation, CheckError, HARNESS

W = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "ch": 8, "ull": 64, "ll": 64,
     "ul": 64, "c16": 16, "c32": 32}
SIGNED = {"i8", "i16", "i32", "i64", "ch", "ll"}
MAIN = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]
CPP = {"u8": "std::uint8_t", "i8": "std::int8_t", "u16": "std::uint16_t", "i16": "std::int16_t", "u32": "std::uint32_t",
       "i32": "std::int32_t", "u64": "std::uint64_t", "i64": "std::int64_t"}


def model(ctx):
    ctx.model_check("VarintMC", "SPECIFICATION Spec\nCONSTANTS G = 2\n Widths = %s\n MaxValues = %d\n"
                    "INVARIANTS Faithful Drained Bounded\nCHECK_DEADLOCK FALSE\n" % (
                        ("{1,2,3,4,5}", 2) if ctx.thorough else ("{1,2,3,4}", 2)))


def gen(ctx):
    r = ctx.tlc("VarintGen", "SPECIFICATION Spec\nCONSTANTS G = 7\n Depth = 3\nCHECK_DEADLOCK FALSE\n", workers=1)
    rows = r.printed()
    if len(rows) < 9000:
        raise CheckError("only %d rows emitted" % len(rows))
    return rows


def edges(rows, t):
    return sorted({sum(b << i for i, b in enumerate(r["b"])) for r in rows
                   if r["op"] == "edge" and r["w"] == W[t]})


def randval(rng, t):
    w = W[t]
    x = rng.getrandbits(rng.randint(0, w))
    if rng.random() < 0.4:
        x = ~x
    return x & ((1 << w) - 1)


def values(ctx, rows, t, nrand, full16):
    """test values of a type: all for 8 bits, else edges of the model and random ones"""
    rng = random.Random("%s/%s/%s" % (ctx.prop, ctx.seed, t))
    if W[t] == 8:
        return list(range(256))
    if W[t] == 16 and full16:
        return list(range(65536))
    return sorted(set(edges(rows, t)) | {randval(rng, t) for _ in range(nrand)})


def judge(ctx, aspects, scripts, variants):
    """runs the command lists in every build, validates the distinct logs"""
    src = os.path.join(HARNESS, "varint_driver.cpp")
    exes = ctx.compile_many([dict(src=src, variant=v) for v in variants])

    def one(a):
        v, exe, i, s = a
        label = "varint, build %s, part %d" % (v, i)
        lines = ctx.drive(exe, "\n".join(s) + "\n", label=label)
        if len(lines) != len(s):
            raise Violation("%s: %d commands but %d results" % (label, len(s), len(lines)), {"script.txt": "\n".join(s)})
        return label, i, s, lines
    logs = ctx.pmap(one, [(v, e, i, s) for v, e in zip(variants, exes) for i, s in enumerate(scripts) if s])
    distinct = {}
    for label, i, s, lines in logs:
        ctx.add("calls_logged", len(lines))
        distinct.setdefault((i, "\n".join(lines)), (label, s, lines))
    ctx.add("distinct_logs", len(distinct))
    cfg = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\nCONSTANTS G = 7\n Aspects = {%s}\n" % (
        ", ".join('"%s"' % a for a in aspects))

    def val(ix):
        n, (label, s, lines) = ix
        f = ctx.write("v%d.ndjson" % n, "\n".join(lines) + "\n")
        ctx.validate("VarintTrace", cfg, f, len(lines), label=label, files={"script.txt": "\n".join(s) + "\n"})
        os.unlink(f)
    ctx.pmap(val, enumerate(distinct.values()), workers=7)
    ctx.add("traces_validated_against_impl", len(logs))
    for label, i, s, lines in logs[:2]:
        ctx.sample({"log": label, "commands": s[:4], "events": lines[:2]})


def split(cmds, n=7, seed=1):
    c = list(cmds)
    random.Random(seed).shuffle(c)
    k = max(1, min(n, len(c) // 300))
    return [c[i::k] for i in range(k)]


def variants(ctx):
    return (["asan", "o2", "emb", "c11", "clang", "clang11"] if not ctx.thorough else
            ["asan", "o2", "o3", "dbg", "emb", "c11", "c14", "c20", "clang", "clang11", "clang_asan"])


def v01(ctx):
    model(ctx)
    rows = gen(ctx)
    cmds = []
    for t in W:
        n = (60 if t in MAIN else 15) * (8 if ctx.thorough else 1)
        for x in values(ctx, rows, t, n, ctx.thorough and t in MAIN):
            cmds.append("enc %s %x" % (t, x))
    judge(ctx, ["enc"], split(cmds, 28 if ctx.thorough else 7), variants(ctx))
    # sizes at compile time
    src = ["#include <cstdint>", "#include <embedded/varint.h>"]
    n = 0
    for r in rows:
        if r["op"] != "edge":
            continue
        t = [k for k in CPP if W[k] == r["w"] and (k in SIGNED) == r["s"]][0]
        x = sum(b << i for i, b in enumerate(r["b"]))
        src.append("static_assert(embedded::varint::size(static_cast<%s>(UINT64_C(%d))) == %d, \"size of %s %d\");" % (
            CPP[t], x, r["n"], CPP[t], x))
        n += 1
    src.append("int main() {}")
    f = ctx.write("sizes.cpp", "\n".join(src) + "\n")
    ctx.pmap(lambda v: ctx.compile_one(f, v, syntax_only=True), ["c11", "c20", "clang11", "clang"])
    ctx.add("compile_time_sizes", n)


def v02(ctx):
    model(ctx)
    rows = gen(ctx)
    cmds = []
    for t in W:
        n = (60 if t in MAIN else 15) * (8 if ctx.thorough else 1)
        for x in values(ctx, rows, t, n, ctx.thorough and t in MAIN):
            cmds.append("zz %s %x" % (t, x))
    wider = {t: [u for u in W if W[u] >= W[t] and (u in SIGNED) == (t in SIGNED)] for t in W}
    for t in MAIN:
        for x in values(ctx, rows, t, 30, ctx.thorough and W[t] == 16):
            for u in [u for u in wider[t] if u in MAIN]:
                cmds.append("str %s %s %x %s" % (ctx.rng.choice(["-", "00", "ff", "807f", "8080"]), t, x, u))
    for _ in range(600 if not ctx.thorough else 12000):
        k = ctx.rng.randint(1, 12)
        parts = []
        for _ in range(k):
            t = ctx.rng.choice(list(W))
            x = ctx.rng.choice(edges(rows, t)) if ctx.rng.random() < 0.3 else randval(ctx.rng, t)
            parts.append("%s %x %s" % (t, x, ctx.rng.choice(wider[t])))
        cmds.append("str %s %s" % (ctx.rng.choice(["-", "00", "ff01", "80", "7f"]), " ".join(parts)))
    judge(ctx, ["rt"], split(cmds, 28 if ctx.thorough else 7), variants(ctx))
    # the folding at compile time
    src = ["#include <cstdint>", "#include <embedded/varint.h>", "typedef embedded::varint V;"]
    for t in ("i8", "i16", "i32", "i64"):
        for x in edges(rows, t)[::1]:
            s = x - (1 << W[t]) if x >> (W[t] - 1) else x
            f = 2 * s if s >= 0 else -2 * s - 1
            lit = "static_cast<%s>(UINT64_C(%d))" % (CPP[t], x)
            src.append("static_assert(V::zig_zag_encode(%s) == UINT64_C(%d) && V::zig_zag_decode(V::zig_zag_encode(%s)) == %s, \"fold %d\");" % (
                lit, f, lit, lit, s))
    src.append("int main() {}")
    f = ctx.write("folds.cpp", "\n".join(src) + "\n")
    ctx.pmap(lambda v: ctx.compile_one(f, v, syntax_only=True), ["c11", "c20", "clang11", "clang"])


def v03(ctx):
    model(ctx)
    rows = gen(ctx)
    cmds = []
    for t in W:
        n = (25 if t in MAIN else 5) * (8 if ctx.thorough else 1)
        for x in values(ctx, rows, t, n, False):
            lim = (W[t] + 6) // 7
            rooms = range(lim + 2) if W[t] == 8 or ctx.thorough else sorted({0, 1, lim, lim - 1, max(1, (x.bit_length() + 6) // 7),
                                                                          max(1, (x.bit_length() + 7) // 7), ctx.rng.randint(0, lim)})
            for r in rooms:
                cmds.append("bnd %s %x %d" % (t, x, r))
        # buffers that are larger than needed, around the limits of a narrow count
        big = [20, 40, 127, 128, 129, 255, 256, 257, 512, 65535, 65536]
        for r in big if t in MAIN else ctx.rng.sample(big, 2):
            for x in ctx.rng.sample(edges(rows, t), 8 if ctx.thorough else 3) + [randval(ctx.rng, t)]:
                cmds.append("bnd %s %x %d" % (t, x, r if r > 60000 or ctx.rng.random() < 0.6 else r * ctx.rng.randint(1, 8)))
    judge(ctx, ["bound"], split(cmds, 28 if ctx.thorough else 7), variants(ctx))


def v04(ctx):
    model(ctx)
    rows = gen(ctx)
    strings = {tuple(r["b"]) for r in rows if r["op"] == "dec"}
    ctx.add("model_strings", len(strings))
    if not ctx.thorough:
        keep = [s for s in strings if len(s) <= 2]
        rest = sorted(s for s in strings if len(s) > 2)
        strings = set(keep) | set(ctx.rng.sample(rest, 2200))
    # two-byte strings decide the 8-bit types completely
    for a in (range(256) if ctx.thorough else (0, 1, 127, 128, 129, 254, 255)):
        for b in range(256):
            strings.add((a, b))
    # three-byte strings at the limit of the 16-bit types, and the last byte at the limit of the 32 and 64-bit types
    for pre in ((128, 128), (255, 255), (129, 192)):
        for b in range(256):
            strings.add(pre + (b,))
    for n in (4, 9):
        for f in (128, 255):
            for b in range(256):
                strings.add((f,) * n + (b,))
    for _ in range(1000 if not ctx.thorough else 40000):
        n = ctx.rng.randint(0, 12)
        s = [ctx.rng.randint(0, 255) | (128 if ctx.rng.random() < 0.75 else 0) for _ in range(n)]
        strings.add(tuple(s))
    # input that goes on for long after the value, and input that never ends
    for n in (60, 127, 128, 255, 256, 257, 384):
        for s in ctx.rng.sample(sorted(strings), 6) + [(), (128,), (255, 255)]:
            strings.add((s + (ctx.rng.choice((0, 1, 127, 128, 255)),) * n)[:n])
    judge(ctx, ["total"], split(["dec " + " ".join(map(str, s)) for s in sorted(strings)], 42 if ctx.thorough else 7), variants(ctx))


CHECKS = {"V01": ("model_checking", v01), "V02": ("model_checking", v02), "V03": ("model_checking", v03), "V04": ("model_checking", v04)}
