"""Checks F01..F05: embedded::function against Function.tla."""
import hashlib, os, random
from vlib import Violation, CheckError, HARNESS

SIGS = {"n": ("int(Obj&)", 0), "c": ("int(Obj&) const", 1)}


PLAIN = ("plain", "one", "odd", "whole", "three", "knower")      # not instrumented


def forms(const, cap):
    f = [["dflt"], ["null"], ["fp"], ["fr"], ["mf"], ["mk"], ["md"], ["nmf"], ["nmk"], ["nmd"], ["ref"], ["lam", None]]
    for k in ("pure", "over", "listable"):
        f += [[k, x, None] for x in "lktr"]
    for k in ("moveonly", "owner"):
        f += [[k, x, None] for x in "tr"]
    if cap >= 40:
        f += [["nest", x, None] for x in "tr"]
    for k in PLAIN:
        f += [[k, "l", None], [k, "t", None]]
    if not const:
        f += [["count", x, None] for x in "lktr"] + [["lmu", None]]
    return f


def random_script(rng, const, cap, nsess, nops):
    out = []
    fs = forms(const, cap)
    for _ in range(nsess):
        alive = [False] * 4
        nw = rng.choice([1, 2, 3, 4])
        out.append("reset 0")
        hot = rng.sample(fs, rng.randint(3, len(fs)))
        for _ in range(nops):
            w = rng.randrange(nw)
            f = [str(rng.randint(1, 200)) if x is None else x for x in rng.choice(hot)]
            others = [x for x in range(nw) if alive[x]]
            if not alive[w]:
                if others and rng.random() < 0.4:
                    out.append("new %d mv %d" % (w, rng.choice(others)))
                else:
                    out.append("new %d %s" % (w, " ".join(f)))
                alive[w] = True
                continue
            r = rng.random()
            if r < 0.4:
                out.append("call %d %d" % (w, rng.randint(-50, 50)))
            elif r < 0.6:
                out.append("asg %d %s" % (w, " ".join(f)))
            elif r < 0.78:
                out.append("asg %d mv %d" % (w, rng.choice(others)))
            elif r < 0.93:
                out.append("swap %d %d" % (w, rng.choice(others)))
            else:
                out.append("del %d" % w)
                alive[w] = False
        for w in range(nw):
            if alive[w]:
                out.append("call %d 1" % w)
        out.append("reset 0")
    return out


def emitted(ctx, const):
    r = ctx.tlc("FunctionMC", "SPECIFICATION EmitSpec\nCONSTANTS IsConst = %s\n Emit = TRUE\n NW = 2\n Objs = {1}\n"
                "CHECK_DEADLOCK FALSE\n" % ("TRUE" if const else "FALSE"), workers=1)
    res = r.printed()
    if len(res) < 1000:
        raise CheckError("only %d histories emitted" % len(res))
    ctx.add("model_histories_replayed", len(res))
    return res


def history_script(hs, cap):
    out = []
    for h in hs:
        if cap < 40 and any("nest" in map(str, o) for o in h):
            continue
        alive = {0, 1}
        out.append("reset 0")
        for o in h:
            out.append(" ".join(map(str, o)))
        last = h[-1]
        if last[0] == "new":
            alive.add(2)
        if last[0] == "del":
            alive.discard(last[1])
        out += ["call %d %d" % (w, 40 + w) for w in sorted(alive)]
        out += ["call %d %d" % (w, 50 + w) for w in sorted(alive)]
    out.append("reset 0")
    return out


def histories(ctx, aspects, configs, batches, nsess, nops, counts=False):
    """configs: list of (variant, sig, cap, align)"""
    ctx.model_check("FunctionMC", "SPECIFICATION DesignSpec\nCONSTANTS IsConst = FALSE\n Emit = FALSE\n NW = %d\n Objs = {1,2,3}\n"
                    "INVARIANTS Refines Unique NoTemp NoneDead\nVIEW view\nCHECK_DEADLOCK FALSE\n" % (3 if ctx.thorough else 2))
    hs = {const: emitted(ctx, const) for const in sorted({SIGS[c[1]][1] for c in configs})}
    jobs = []
    for var, sig, cap, al in configs:
        s, const = SIGS[sig]
        d = "-D'SIG=%s' -DCONST_SIG=%d -DCAP=%d -DALIGN=%d" % (s, const, cap, al)
        if "asan" not in var and "msan" not in var:
            d += " -DCOUNT_ALLOCS"
        jobs.append(dict(src=os.path.join(HARNESS, "fn_driver.cpp"), variant=var, defs=d))
    exes = ctx.compile_many(jobs)
    scripts = {}
    for var, sig, cap, al in configs:
        key = (sig, cap >= 40)
        if key not in scripts:
            const = SIGS[sig][1]
            ss = [("model histories", history_script(hs[const], cap))]
            for b in range(batches):
                rng = random.Random("%s/%s/%s/%d" % (ctx.prop, ctx.seed, key, b))
                ss.append(("random %d" % b, random_script(rng, const, cap, nsess, nops)))
            scripts[key] = ss
    runs = []
    for c, exe in zip(configs, exes):
        for name, s in scripts[c[1], c[2] >= 40]:
            runs.append((c, exe, name, s))

    def one(r):
        (var, sig, cap, al), exe, name, s = r
        label = "function<%s, %s, %s>, build %s, %s" % (SIGS[sig][0], cap or "default", al, var, name)
        lines = ctx.drive(exe, "\n".join(s) + "\n", label=label)
        if len(lines) != len(s):
            raise Violation("%s: %d commands but %d results" % (label, len(s), len(lines)), {"script.txt": "\n".join(s)})
        ctx.add("commands_executed", len(lines))
        return label, sig, s, lines
    logs = ctx.pmap(one, runs)
    pieces, seen = [], set()
    for label, sig, s, lines in logs:
        cur = []
        for a in lines + [None]:
            if a is None or (a.startswith('{"op":"reset"') and len(cur) > 4000):
                h = hashlib.sha256((sig + "\n".join(cur)).encode()).hexdigest()
                if h not in seen:
                    seen.add(h)
                    pieces.append((label, sig, cur, s))
                cur = []
            if a is not None:
                cur.append(a)
    ctx.add("distinct_logs", len(pieces))

    def val(ip):
        i, (label, sig, lines, s) = ip
        f = ctx.write("fn%d.ndjson" % i, "\n".join(lines) + "\n")
        ctx.validate("FunctionTrace", "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
                     "CONSTANTS Aspects = {%s}\n IsConst = %s\n" % (
                         ", ".join('"%s"' % a for a in aspects), "TRUE" if SIGS[sig][1] else "FALSE"),
                     f, len(lines), label=label, files={"script.txt": "\n".join(s) + "\n"})
        os.unlink(f)
    ctx.pmap(val, enumerate(pieces), workers=7)
    ctx.add("traces_validated_against_impl", len(logs))
    for label, sig, s, lines in logs[:3]:
        ctx.sample({"log": label, "commands": s[:6], "events": lines[:2]})


QC = [("asan", "n", 48, 16), ("o2", "c", 0, 8), ("emb", "n", 0, 8), ("clang", "c", 64, 64), ("dbg", "n", 64, 32)]
TC = [(v, s, cap, al) for v in ("asan", "o2", "emb", "clang", "c14", "asan20", "clang_emb", "o3")
      for s in "nc" for cap, al in ((0, 8), (48, 16), (32, 32), (40, 8), (128, 64))]


def hist(aspects):
    def f(ctx):
        if ctx.thorough:
            histories(ctx, aspects, TC, 10, 200, 60)
        else:
            histories(ctx, aspects, QC, 2, 40, 50)
    return f




# ------------------------------------------------------------------ compile-time matrix
PRELUDE = """#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <embedded/function.h>
struct S { int a; };
struct B { int b; };
struct D : B {};
typedef std::unique_ptr<int> up;
template <typename F, typename = void> struct can0 : std::false_type {};
template <typename F> struct can0<F, decltype(static_cast<void>(std::declval<F>()()))> : std::true_type {};
#define CHECK_F(row, F, C, ok) \\
  static_assert(std::is_constructible<F, C>::value == ok, row " construct from rvalue"); \\
  static_assert(std::is_constructible<F, C&>::value == ok, row " construct from lvalue"); \\
  static_assert(std::is_constructible<F, C const&>::value == ok, row " construct from const lvalue"); \\
  static_assert(std::is_convertible<C, F>::value == ok, row " convert"); \\
  static_assert(std::is_assignable<F&, C>::value == ok, row " assign");
"""
NOCV = {"up&&": "std::unique_ptr<int>&&"}


def matrix_source(rows):
    out = [PRELUDE]
    types = {}
    n = 0
    for r in rows:
        if r["part"] in "AB":
            key = (tuple(r["quals"]), r["ret"], r["par"])
            if key not in types:
                name = "T%d" % len(types)
                types[key] = name
                out.append("struct %s { %s };" % (name, " ".join("%s operator()(%s) %s;" % (r["ret"], r["par"], q.replace("const&", "const &"))
                                                                for q in r["quals"])))
            sig = "%s(%s)%s" % (r["R"], r["arg"], " const" if r["c"] else "")
            desc = "%s <- [%s] %s(%s)" % (sig, ",".join(q or "mutable" for q in r["quals"]), r["ret"], r["par"])
            out.append('typedef embedded::function<%s> F%d; CHECK_F("%s", F%d, %s, %s)' % (
                sig, n, desc, n, types[key], "true" if r["ok"] else "false"))
            if r["ok"]:     # accepted means that it can also be built, not only that the question is answered with yes
                out.append("void g%d(%s&& x) { F%d f(std::move(x)); f = std::move(x); }" % (n, types[key], n))
            if r["quals"] == ["const"]:
                out.append('typedef %s (*P%d)(%s); CHECK_F("%s (function pointer)", F%d, P%d, %s)' % (
                    r["ret"], n, r["par"], desc, n, n, "true" if r["ok"] else "false"))
        elif r["part"] == "C":
            key = ("arity", r["n"])
            if key not in types:
                types[key] = "N%d" % r["n"]
                out.append("struct N%d { int operator()(%s) const; };" % (r["n"], ",".join(["int"] * r["n"])))
            sig = "int(%s)%s" % (",".join(["int"] * r["m"]), " const" if r["c"] else "")
            out.append('typedef embedded::function<%s> F%d; CHECK_F("%s <- %d arguments", F%d, N%d, %s)' % (
                sig, n, sig, r["n"], n, r["n"], "true" if r["ok"] else "false"))
        elif r["part"] == "U":
            sig = "%s()%s" % (r["R"], " const" if r["c"] else "")
            b = lambda x: "true" if x else "false"
            out.append('typedef embedded::function<%s> F%d;' % (sig, n))
            for cond, want, what in (("can0<F%d&>::value" % n, r["viamutable"], "call"),
                                     ("can0<F%d const&>::value" % n, r["viaconst"], "call on const"),
                                     ("can0<F%d const>::value" % n, r["viaconst"], "call on const rvalue"),
                                     ("std::is_copy_constructible<F%d>::value" % n, r["copy"], "copy construction"),
                                     ("std::is_constructible<F%d, F%d&>::value" % (n, n), r["copy"], "copy construction from lvalue"),
                                     ("std::is_copy_assignable<F%d>::value" % n, r["copy"], "copy assignment"),
                                     ("std::is_assignable<F%d&, F%d&>::value" % (n, n), r["copy"], "copy assignment from lvalue"),
                                     ("std::is_move_constructible<F%d>::value" % n, True, "move construction"),
                                     ("std::is_move_assignable<F%d>::value" % n, True, "move assignment")):
                out.append('static_assert(%s == %s, "%s: %s");' % (cond, b(want), sig, what))
        else:
            continue
        n += 1
    out.append("int main() {}")
    return "\n".join(out) + "\n", n


def type_rows(ctx):
    r = ctx.model_check("FunctionTypes", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=1)
    rows = r.printed()
    if len(rows) < 5000:
        raise CheckError("only %d rows emitted" % len(rows))
    return rows


NEG = """#include <embedded/function.h>
template <int N, int A> struct alignas(A) blob { char b[N]; int operator()(int x) const { return x; } };
struct throwing { throwing(); throwing(throwing const&); throwing(throwing&&) noexcept(%(nothrow)s); int operator()(int x) const; };
int main() { embedded::function<int(int)%(const)s, %(cap)d, %(A)d> f{%(what)s}; return f ? 0 : 1; }
"""


def compiles(ctx, src, variant):
    try:
        ctx.compile_one(src, variant, syntax_only=False, extra="-c", out=src + "." + variant + ".o")
        return None
    except Violation as v:
        return v


def negatives(ctx, rows, variants):
    """programs the wrapper has to reject, each with an accepted twin"""
    st = [r for r in rows if r["part"] == "S"]
    good, bad = {}, {}
    for r in st:
        (good if r["ok"] else bad).setdefault((r["cap"], r["A"]), []).append((r["size"], r["al"]))
    jobs = []
    for (cap, A), lst in sorted(bad.items()):
        size_bad = [x for x in lst if A % x[1] == 0]
        al_bad = [x for x in lst if x[0] <= cap]
        g = max(good.get((cap, A), [(0, 0)]))
        if g == (0, 0):
            continue
        for l in (size_bad, al_bad):
            if l:
                jobs.append((cap, A, g, min(l), "blob"))
    if not ctx.thorough:
        key = [j for j in jobs if (j[0], j[1]) in ((24, 8), (1, 1), (48, 16))]
        jobs = key + ctx.rng.sample([j for j in jobs if j not in key], 6)
    jobs += [(24, 8, None, None, "throw"), (64, 16, None, None, "throw")]

    def one(a):
        i, (cap, A, g, b, kind), var, const = a
        res = []
        for ok in (True, False):
            if kind == "throw":
                what, nt = "throwing()", "true" if ok else "false"
            else:
                what, nt = "blob<%d, %d>{}" % (g if ok else b), "true"
            src = ctx.write("neg%d_%s_%d.cpp" % (i, var, ok), NEG % {"cap": cap, "A": A, "what": what, "nothrow": nt,
                                                                    "const": " const" if const else ""})
            res.append(compiles(ctx, src, var))
        d = "storage %d/%d, callable %s" % (cap, A, ("size %d alignment %d" % (b if res[0] is None else g)) if kind == "blob"
                                            else "that may throw when moved")
        if res[0] is not None:
            raise Violation("an acceptable callable is rejected (%s): %s" % (d, res[0].what), res[0].files)
        if res[1] is None:
            raise Violation("a callable that must be rejected is accepted (%s, build %s)" % (d, var),
                            {"program.cpp": open(src).read()})
        ctx.add("rejected_programs")
    ctx.pmap(one, [(i * 10 + k, j, var, (i + k) % 2) for i, j in enumerate(jobs) for k, var in enumerate(variants)])


def f03(ctx):
    rows = type_rows(ctx)
    src, n = matrix_source(rows)
    f = ctx.write("matrix.cpp", src)
    vs = ["c11", "c14", "c20", "clang", "clang11"] if not ctx.thorough else ["c11", "c14", "o2", "c20", "clang", "clang11", "emb", "clang_emb"]
    ctx.pmap(lambda v: ctx.compile_one(f, v, syntax_only=True), vs)
    ctx.add("matrix_rows", n)
    ctx.add("matrix_compilations", len(vs))
    negatives(ctx, rows, ["c11"] if not ctx.thorough else ["c11", "c20", "clang"])
    c = [("asan", "n", 48, 16), ("o2", "c", 0, 8), ("emb", "c", 64, 32), ("clang11", "n", 0, 8)]
    if ctx.thorough:
        histories(ctx, ["const"], TC, 6, 200, 60)
    else:
        histories(ctx, ["const"], c, 1, 40, 50)


def table(ctx, exe, label, part, expect=None):
    lines = ctx.drive(exe, "", label=label)
    f = ctx.write("table_%d.ndjson" % abs(hash(label)), "\n".join(lines) + "\n")
    ctx.validate("FunctionCalls", "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
                 "CONSTANT Part = \"%s\"\n" % part, f, len(lines), label=label)
    ctx.add("traces_validated_against_impl")
    ctx.sample({"log": label, "events": lines[:2]})
    return lines


def f04(ctx):
    rows = [r for r in type_rows(ctx) if r["part"] == "S" and r["ok"]]
    by = {}
    for r in rows:
        by.setdefault((r["cap"], r["A"], r["al"]), []).append(r["size"])
    pick = []
    for (cap, A, al), sizes in sorted(by.items()):
        s = sorted(sizes)
        want = {s[0], s[-1]} | ({s[len(s) // 2]} if ctx.thorough else set())
        pick += [(cap, A, x, al) for x in sorted(want)]
    per = (len(pick) + 7) // 8
    vs = ["asan", "o2", "emb", "clang"] if not ctx.thorough else ["asan", "o2", "emb", "clang", "o3", "c14", "clang_emb", "asan20"]
    jobs = []
    groups = [pick[i::8] for i in range(8)]
    for gi, g in enumerate(groups):
        src = ['#include "fnstore.h"', "int main() {"]
        for i, (cap, A, size, al) in enumerate(g):
            src.append("  row<int(int)%s, %s, %d, %d, %d, %d>();" % (" const" if i % 2 else "", "true" if i % 2 else "false", cap, A, size, al))
        src.append("}")
        f = ctx.write("store%d.cpp" % gi, "\n".join(src) + "\n")
        for k, v in enumerate(vs):
            if not ctx.thorough and k != gi % 4 and k != (gi + 1) % 4:
                continue
            jobs.append((dict(src=f, variant=v, defs="" if "asan" in v else "-DCOUNT_ALLOCS"), "storage of %d callables, build %s, part %d" % (len(g), v, gi)))
    exes = ctx.compile_many([j for j, _ in jobs])
    rows = ctx.pmap(lambda x: table(ctx, x[0], x[1][1], "storage"), zip(exes, jobs), workers=7)
    ctx.add("storage_rows", sum(map(len, rows)))
    c = [("o2", "n", 48, 16), ("clang", "c", 64, 64), ("emb", "n", 0, 8)]
    if ctx.thorough:
        histories(ctx, ["mem"], TC, 6, 200, 60)
    else:
        histories(ctx, ["mem"], c, 1, 40, 50)


def f05(ctx):
    vs = ["asan", "c11", "c14", "o2", "c20", "emb", "clang", "clang11"]
    if ctx.thorough:
        vs += ["o3", "dbg", "asan20", "clang_asan", "clang_emb"]
    exes = ctx.compile_many([dict(src=os.path.join(HARNESS, "fwd_driver.cpp"), variant=v) for v in vs])
    rows = ctx.pmap(lambda x: table(ctx, x[0], "forwarding, build " + x[1], "forward"), zip(exes, vs), workers=7)
    ctx.add("states", sum(map(len, rows)))
    ctx.add("transitions", sum(map(len, rows)))


CHECKS = {"F01": ("model_checking", hist(["res"])), "F02": ("model_checking", hist(["own"])),
          "F03": ("model_checking", f03), "F04": ("model_checking", f04), "F05": ("model_checking", f05)}
