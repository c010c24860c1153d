"""Checks A01..A04: compile-time vectors, polynomials and complex numbers against Algebra.tla."""
import json, os, random
from vlib import Violation, CheckError, HARNESS

CPP = {"i": "int", "l": "ll", "d": "double", "f": "float", "u": "uc", "e": "ld"}
CX = {"cd": "double", "cf": "float", "ce": "ld"}
TCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
NAN = 999999


def model(ctx, inv):
    ctx.model_check("AlgebraMC", "SPECIFICATION Spec\nCONSTANTS RawVals = {0,2,%s}\n MaxLen = 3\n RawG = {0,3,%s}\n"
                    "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % ("3,5" if ctx.thorough else "3", "2,4,5,6" if ctx.thorough else "4,5", inv))


def shapes(ctx, n):
    r = ctx.tlc("AlgebraGen", "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n" % n, workers=1)
    rows = r.printed()
    if len(rows) < 200:
        raise CheckError("only %d shapes" % len(rows))
    ctx.add("shapes_in_model", len(rows))
    return rows


# ---- C++ expressions of rows
def ct(t):
    return "complex<%s>" % CX[t] if t in CX else CPP[t]


def num(t, v, rt):
    if v == NAN:
        return "std::numeric_limits<%s>::quiet_NaN()" % CPP[t]
    if t in CX:
        c = CX[t]
        return ("complex<%s>(L<%s>(%d), L<%s>(%d))" if rt else "complex<%s>(%s(%d), %s(%d))") % (c, c, v[0], c, v[1])
    return ("L<%s>(%d)" if rt else "%s(%d)") % (CPP[t], v)


def vec(t, s, rt):
    return "vector<%s, %d>{%s}" % (ct(t), len(s), ", ".join(num(t, v, rt) for v in s))


def size(n, rt):
    return "L<std::size_t>(%d)" % n if rt else "%d" % n


def expr(r, rt):
    op, t = r["op"], r["t"]
    T = ct(t)
    if "x" in r:
        return cexpr(r, rt)
    a = vec(t, r["a"], rt)
    V = lambda: num(t, r["v"], rt)
    I = lambda: num(t, r["i"], rt)
    b = lambda: vec(t, r["b"], rt)
    P = {"lt": "lt_p{}", "gt": "gt_p{}", "abs": "abs_p{}", "mod": "mod_p{}", "neg": "neg_c{}", "even": "even_c{}", "all": "all_c{}",
         "none": "none_c{}", "gtv": "gtv_c<%s>(%s)" % (T, V() if op == "count" and r["p"] == "gtv" else "0"), "": ""}[r["p"]]
    return {
        "create": lambda: "vector<%s, %d>::create(gen<%s>(%s, %s))" % (T, r["n"], T, V(), I()),
        "full": lambda: "vector<%s, %d>::full(%s)" % (T, r["n"], V()),
        "ones": lambda: "vector<%s, %d>::ones()" % (T, r["n"]),
        "zeros": lambda: "vector<%s, %d>::zeros()" % (T, r["n"]),
        "default": lambda: "vector<%s, %d>{}" % (T, r["n"]),
        "convert": lambda: "vector<%s, %d>(%s)" % (T, r["n"], vec(r["t0"], r["a"], rt)),
        "size": lambda: "vector<%s, %d>::size()" % (T, r["n"]),
        "at": lambda: "%s[%s]" % (a, size(r["i"], rt)),
        "append": lambda: "%s.append(%s)" % (a, b()),
        "sub": lambda: "%s.subvector<%d, %d>()" % (a, r["i"], r["j"]),
        "erase": lambda: "%s.erase<%d%s>()" % (a, r["i"], "" if r["j"] == 1 and r["v"] % 2 else ", %d" % r["j"]),
        "swap": lambda: "%s.swap(%s, %s)" % (a, size(r["i"], rt), size(r["j"], rt)),
        "swappop": lambda: "%s.swappop(%s)" % (a, size(r["i"], rt)),
        "map": lambda: "%s.transform(aff<%s>(%s, %s))" % (a, T, V(), I()),
        "mapto": lambda: "%s.transform<ll>(affll<%s>(%d, %d))" % (a, T, r["v"], r["i"]),
        "sum": lambda: "%s.reduce(plus_f{}, %s)" % (a, V()),
        "prod": lambda: "cm::prod(%s)" % a,
        "mulred": lambda: "%s.reduce(mul_f{})" % a,
        "max": lambda: "%s.reduce(max_f{}, %s)" % (a, V()),
        "eq": lambda: "(%s == %s)" % (a, b()),
        "argmin": lambda: "%s.argmin(%s)" % (a, P),
        "count": lambda: "%s.count(%s)" % (a, P),
        "sort": lambda: "%s.sort(%s)" % (a, P),
        "neg": lambda: "(-%s)" % a,
        "cneg": lambda: "(-%s)" % a,
        "mulv": lambda: "(%s * %s)" % (V(), a),
        "cmulv": lambda: "(%s * %s)" % (num({"cd": "d", "cf": "f", "ce": "e"}[t], r["v"], rt) if t in CX else 0, a),
        "addv": lambda: "(%s + %s)" % (V(), a),
        "divby": lambda: "(%s / %s)" % (a, V()),
        "divv": lambda: "(%s / %s)" % (V(), a),
        "conv": lambda: "cm::convolve_full(%s, %s)" % (a, b()),
        "cconv": lambda: "cm::convolve_full(%s, %s)" % (a, b()),
        "poly": lambda: "cm::poly(%s)" % a,
        "cpoly": lambda: "cm::poly(%s)" % a,
    }[op]()


def cexpr(r, rt):
    op, t, e, f = r["op"], r["t"], r.get("e", 0), r.get("f", 0)
    T = CX[t]
    s = lambda z, k: "sc(%s, %d)" % (num(t, z, rt), k) if k else num(t, z, rt)
    x, y = s(r["x"], e), s(r["y"], f)
    one = lambda v: ("L<%s>(%d)" if rt else "%s(%d)") % (T, v)
    re = lambda z, k: "sc(%s, %d)" % (one(z[0]), k) if k else one(z[0])
    left = {"r": re(r["x"], e), "c": x}[r["s"][0]]
    right = {"r": re(r["y"], f), "c": y}[r["s"][1]]
    bin = lambda o: "(%s %s %s)" % (left, o, right)
    un = lambda z, k: "sc(%s, %d)" % (z, k) if k else z
    return {
        "cadd": lambda: un(bin("+"), -e), "csub": lambda: un(bin("-"), -e),
        "cmul": lambda: un(bin("*"), -e - f),
        "cnegs": lambda: un("(-%s)" % x, -e), "conj": lambda: un("%s.conj()" % x, -e),
        "norm": lambda: un("%s.norm()" % x, -2 * e),
        "isreal": lambda: "%s.is_real()" % x, "ceq": lambda: "(%s == %s)" % (x, y),
        "parts": lambda: "vector<%s, 2>{%s.real(), %s.imag()}" % (T, un(x, -e), un(x, -e)),
        "cdiv": lambda: un(bin("/"), f - e), "cdivx": lambda: un(bin("/"), f - e),
        "abs": lambda: un("%s.abs()" % x, -e), "dist": lambda: un("%s.distance(%s)" % (x, y), -e),
        "cexp": lambda: "exp(complex<%s>(%s, %s))" % (T, ("L<%s>(%s)" if rt else "%s(%s)") % (
            T, "%d * 0.693147180559945309417232121458L" % r["e2"]), ("L<%s>(%s)" if rt else "%s(%s)") % (
                T, "%d * 0.261799387799149436538553615273L" % r["k"])),
        "elem": lambda: r["cpp"],
    }[op]()


TOL = {"cd": "1e-12L", "cf": "1e-4L", "ce": "1e-12L"}


def post(r, v):
    """what is printed of the value"""
    if "x" in r:
        t = r["t"]
        if r["op"] in ("cdiv", "cdivx"):
            return "whole(%s, %dL, %s * %d)" % (v, r["k"], TOL[t], max(1, r["k"] * 8))
        if r["op"] in ("abs", "dist"):
            return "magnitude(%s)" % v
        if r["op"] == "cexp":
            return "whole(%s, 1e8L / p2(%d), 1.0L)" % (v, r["e2"])
    return v


def program(rows, cx):
    out = []
    if cx:
        out.append("#define WITH_COMPLEX 1")
    out.append('#include "alg_rows.h"')
    fns = []
    for k in range(0, len(rows), 40):
        fns.append("f%d" % k)
        out.append("static void f%d() {" % k)
        for r in rows[k:k + 40]:
            if r.get("ct", True):
                out.append("  { constexpr auto v = %s; out(%d, \"ct\", %s); }" % (expr(r, False), r["id"], post(r, "v")))
            out.append("  { auto v = %s; out(%d, \"rt\", %s); }" % (expr(r, True), r["id"], post(r, "v")))
        out.append("}")
    out.append("int main() { %s return 0; }" % " ".join(f + "();" for f in fns))
    return "\n".join(out) + "\n"


def judge(ctx, rows, cx, variants, label, np=0):
    for i, r in enumerate(rows):
        r["id"] = i
        for k, d in (("a", []), ("b", []), ("i", 0), ("j", 0), ("v", 0), ("n", 0), ("p", "")):
            r.setdefault(k, d)
    parts = [rows[i::8] for i in range(8)] if np or len(rows) > 80 else [rows]
    jobs = []
    for i, p in enumerate(parts):
        src = ctx.write("%s%d.cpp" % (label, i), program(p, cx))
        jobs += [(src, v, i, p) for v in variants]

    def one(j):
        src, v, i, p = j
        exe = ctx.compile_one(src, v)
        lines = ctx.drive(exe, "", label="%s, build %s, part %d" % (label, v, i))
        want = sum(2 if r.get("ct", True) else 1 for r in p)
        if len(lines) != want:
            raise CheckError("%s: %d results instead of %d" % (label, len(lines), want))
        os.unlink(exe)
        return v, lines
    distinct = {}
    n = 0
    for v, lines in ctx.pmap(one, jobs):
        for line in lines:
            d = json.loads(line)
            n += 1
            key = (d["id"], json.dumps(d["r"]))
            distinct.setdefault(key, "%s %s" % (v, d["m"]))
    ctx.add("evaluations", n)
    ctx.add("rows", len(rows))
    events = []
    for (i, r), where in sorted(distinct.items()):
        e = {k: x for k, x in rows[i].items() if k not in ("cpp", "ct")}
        e["r"] = json.loads(r)
        e["where"] = where
        e["text"] = expr(rows[i], False)[:200]
        events.append(json.dumps(e))
    chunks = [events[i::6] for i in range(6)]

    def val(ix):
        k, c = ix
        if c:
            f = ctx.write("%s_v%d.ndjson" % (label, k), "\n".join(c) + "\n")
            ctx.validate("AlgebraTrace", TCFG, f, len(c), label=label)
    ctx.pmap(val, enumerate(chunks))
    ctx.add("traces_validated_against_impl", len(jobs))
    for e in events[::max(1, len(events) // 4)][:4]:
        ctx.sample(json.loads(e))


def fill(rng, n, lo=-9, hi=9):
    m = rng.random()
    if m < 0.2:
        lo, hi = 0, 2
    elif m < 0.3:
        lo, hi = -1, 1
    return [rng.randint(lo, hi) for _ in range(n)]


STRUCTURAL = ("full", "at", "append", "sub", "erase", "swap", "swappop", "sort", "argmin", "max", "eq", "count", "neg", "convert")


def vec_rows(rng, sh, types, k):
    rows = []
    for s in sh:
        for _ in range(k):
            t = rng.choice(types)
            op, n = s["op"], s["n"]
            r = {"op": op, "t": t, "i": s["i"], "j": s["j"], "n": n, "v": rng.randint(-9, 9), "p": "", "b": []}
            a = fill(rng, n)
            if op in STRUCTURAL and rng.random() < .4:          # elements that fill the type
                m = 2 ** 23 if t == "f" or op == "convert" else 2 ** 30
                a = [rng.choice([-1, 1]) * (m - rng.randint(0, 9)) for _ in range(n)]
                r["v"] = rng.choice([-1, 1]) * (m - rng.randint(0, 9))
            if op in ("create", "map", "mapto"):
                r["i"] = rng.randint(-9, 9)
            if op in ("create", "full", "ones", "zeros", "default", "size"):
                a = []
            if op == "convert":
                r["t0"] = rng.choice({"i": ["i", "l"], "l": ["i", "l"], "d": ["i", "d", "f"], "f": ["f"]}[t])
            if op in ("append",):
                r["b"] = fill(rng, s["m"])
            if op == "eq":
                b = list(a)
                if s["i"] < n:
                    b[s["i"]] += rng.choice([-1, 1])
                    if rng.random() < 0.3 and n > 1:
                        j = rng.randrange(n)
                        b[j] += rng.choice([-1, 1])
                elif n and t in "df" and rng.random() < 0.5:
                    j = rng.randrange(n)
                    a[j] = NAN
                    if rng.random() < 0.6:
                        b[j] = NAN
                r["b"] = b
            if op in ("argmin", "sort"):
                r["p"] = rng.choice(["lt", "gt", "abs", "mod"])
            if op == "count":
                r["p"] = rng.choice(["neg", "even", "gtv", "all", "none"])
            if op in ("prod", "mulred"):
                a = [rng.choice([-3, -2, -1, 1, 2, 3, 5]) for _ in a]
                if len(a) > 12:
                    a = [x if i < 9 else rng.choice([-1, 1]) for i, x in enumerate(a)]
                    rng.shuffle(a)
            if op == "divby":
                r["v"] = rng.choice([-6, -3, -2, -1, 1, 2, 3, 4, 6])
                a = [x * r["v"] for x in a]
            if op == "divv":
                r["v"] = rng.choice([-24, 12, 24, 60])
                a = [rng.choice([-4, -3, -2, -1, 1, 2, 3, 4, 6, 12]) for _ in a]
            r["a"] = a
            rows.append(r)
    return rows


VECOPS = lambda s: s["op"] not in ("conv", "poly")


def a01(ctx):
    model(ctx, "VectorLaws")
    rng = ctx.rng
    sh = [s for s in shapes(ctx, 6 if ctx.thorough else 5) if VECOPS(s)]
    rows = vec_rows(rng, sh, ["i", "l", "d", "f"], 6 if ctx.thorough else 2)
    big = []
    for n in (7, 8, 9, 16, 33) + ((64, 100) if ctx.thorough else ()):
        for s in sh:
            if s["n"] == 5 and s["m"] in (0, 5):
                b = dict(s, n=n, m=n if s["m"] else 0)
                for q in ("i", "j"):
                    if s[q]:
                        b[q] = rng.randint(0, n - 1)
                if s["op"] in ("sub", "erase"):
                    b["i"] = rng.randint(0, n)
                    b["j"] = rng.randint(0, n - b["i"])
                if s["op"] == "eq":
                    b["i"] = rng.choice([0, n - 1, n, n])
                if rng.random() < (1 if ctx.thorough or (n == 33 and s["op"] != "swap") else 0.3):
                    big.append(b)
    rows += vec_rows(rng, big, ["i", "d"], 1)
    huge = []
    for s in sh:
        if s["n"] == 5 and s["m"] in (0, 5) and s["op"] in ("sum", "max", "argmin", "count", "eq", "append", "at", "map", "neg", "sub", "mulv", "full", "size", "create") \
                or ctx.thorough and s["n"] == 5 and s["op"] == "swappop":     # (slow to compile)
            n = rng.choice([257, 270, 300])
            b = dict(s, n=n, m=3 if s["m"] else 0)
            for q in ("i", "j"):
                if s[q]:
                    b[q] = rng.randint(256, n - 1) if rng.random() < .7 else rng.randint(0, n - 1)
            if s["op"] == "sub":
                b["i"] = rng.randint(0, n)
                b["j"] = rng.randint(0, n - b["i"])
            if s["op"] == "eq":
                b["i"] = rng.choice([n - 1, n])
            if not any(h["op"] == b["op"] and (h["op"] not in ("at", "swappop") or len([g for g in huge if g["op"] == h["op"]]) > 1) for h in huge):
                huge.append(b)
    hrows = vec_rows(rng, huge, ["i", "d"], 1)
    for r in hrows:
        r["ct"] = ctx.thorough
    for r in hrows:                                            # so that the last elements matter
        if r["op"] in ("argmin", "max") and rng.random() < .7:
            r["a"][rng.randint(256, len(r["a"]) - 1)] = -2 ** 30 if r["op"] == "argmin" and r["p"] == "lt" else 2 ** 30
    judge(ctx, hrows, False, ["c11"] + (["clang", "asan"] if ctx.thorough else []), "long_vectors", 8)
    judge(ctx, rows, False, ["c11", "clang11", "asan"] + (["c20", "clang", "o3", "emb"] if ctx.thorough else []), "vectors")
    # vectors of complex numbers, structural operations
    crow = []
    for s in sh:
        if s["op"] in ("append", "sub", "erase", "swap", "swappop", "at", "eq") and rng.random() < (1 if ctx.thorough else 0.3):
            t = rng.choice(["cd", "cf"])
            z = lambda n: [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(n)]
            r = {"op": s["op"], "t": t, "i": s["i"], "j": s["j"], "n": s["n"], "a": z(s["n"]), "b": z(s["m"])}
            if s["op"] == "eq":
                r["b"] = [list(q) for q in r["a"]]
                if s["i"] < s["n"]:
                    r["b"][s["i"]][rng.randint(0, 1)] += 1
            crow.append(r)
    judge(ctx, crow, True, ["c11", "asan"] + (["c20", "o3"] if ctx.thorough else []), "complex_vectors")
    ctx.assumptions += ["elements are whole numbers, on which every arithmetic of the tested types is exact"]


def a02(ctx):
    model(ctx, "PolyLaws ComplexLaws")
    rng = ctx.rng
    sh = [s for s in shapes(ctx, 7 if ctx.thorough else 5) if not VECOPS(s)]
    rows, crow = [], []
    rep = 12 if ctx.thorough else 4
    for s in sh:
        for _ in range(rep):
            t = rng.choice(["i", "l", "d", "f", "e"])
            a, b = fill(rng, s["n"]), fill(rng, s["m"])
            rows.append({"op": s["op"], "t": t, "a": a, "b": b})
            if s["op"] == "poly":
                p = list(a)
                rng.shuffle(p)
                rows.append({"op": "poly", "t": t, "a": p})
            t = rng.choice(["cd", "cf", "ce"])
            z = lambda n: [[rng.randint(-4, 4), rng.choice([0, rng.randint(-4, 4)])] for _ in range(n)]
            if t != "cf" or s["n"] < 5:
                crow.append({"op": "c" + s["op"], "t": t, "a": z(s["n"]), "b": z(s["m"])})
    # sparse and unit vectors, long ones, zeros with multiplicity
    for _ in range(20 if not ctx.thorough else 200):
        n, m = rng.randint(1, 12), rng.randint(1, 12)
        a = [0] * n
        b = [0] * m
        a[rng.randrange(n)] = rng.choice([1, -1, 7])
        b[rng.randrange(m)] = rng.choice([1, -1, 5])
        rows.append({"op": "conv", "t": rng.choice("ild"), "a": a, "b": b})
    for n, m in ((1, 20), (20, 1), (17, 17), (30, 3), (3, 30)):
        rows.append({"op": "conv", "t": rng.choice("ild"), "a": fill(rng, n), "b": fill(rng, m)})
    for n in (8, 10, 12):
        rows.append({"op": "poly", "t": rng.choice("ld"), "a": [rng.randint(-2, 2) for _ in range(n)]})
        rows.append({"op": "poly", "t": "d", "a": [rng.choice([-1, 1])] * n})
    judge(ctx, rows, False, ["c11", "clang11", "asan"] + (["c20", "clang", "o3", "emb"] if ctx.thorough else []), "polynomials")
    judge(ctx, crow, True, ["c11", "asan"] + (["c20", "o3", "emb"] if ctx.thorough else []), "complex_polynomials")
    ctx.assumptions += ["coefficients and zeros are whole (Gaussian) numbers with exactly representable results"]


def a03(ctx):
    model(ctx, "ComplexLaws ExpLaws")
    rng = ctx.rng
    rows = []
    lim = {"cd": 300, "cf": 20, "ce": 3000}
    wide = {"cd": 950, "cf": 100, "ce": 15000}          # where nothing is multiplied
    small = [[a, b] for a in (-3, -1, 0, 1, 2) for b in (-2, 0, 1, 3)]

    def add(op, t, x, y, s="cc", e=0, f=0, **kw):
        rows.append(dict({"op": op, "t": t, "x": x, "y": y, "s": s, "e": e, "f": f, "k": 0}, **kw))
    pairs = [(x, y) for x in small for y in small]
    if not ctx.thorough:
        pairs = rng.sample(pairs, 130)
    pairs += [([rng.randint(-99, 99), rng.randint(-99, 99)], [rng.randint(-99, 99), rng.randint(-99, 99)])
              for _ in range(60 if not ctx.thorough else 600)]
    for x, y in pairs:
        t = rng.choice(["cd", "cd", "cf", "ce"])
        e = rng.choice([0, 0, rng.randint(-lim[t], lim[t])])
        f = rng.choice([0, 0, rng.randint(-lim[t], lim[t])])
        e2 = rng.choice([0, rng.randint(-wide[t], wide[t]), rng.choice([-1, 1]) * rng.randint(wide[t] - 60, wide[t])])
        add("cadd", t, x, y, e=e2, f=e2)
        add("csub", t, x, y, e=e2, f=e2)
        add("cmul", t, x, y, e=e, f=f)
        if y != [0, 0]:
            add("cdiv", t, x, y, e=e, f=f, k=y[0] ** 2 + y[1] ** 2)
        add("ceq", t, x, y if rng.random() < 0.5 else x, e=e2, f=e2)
        if rng.random() < 0.3:
            add("ceq", t, x, [x[0] + rng.randint(0, 1), x[1] + rng.randint(0, 1)], e=-wide[t], f=-wide[t])
        if rng.random() < 0.6:
            p = [y[0], 0]
            q = [x[0], 0]
            add("cadd", t, q, y, "rc")
            add("csub", t, q, y, "rc")
            add("cmul", t, q, y, "rc", e=e, f=f)
            if p[0]:
                add("cdivx", t, x, p, "cr", e=e, f=f, k=p[0] ** 2)
            if y != [0, 0]:
                add("cdivx", t, q, y, "rc", e=e, f=f, k=y[0] ** 2 + y[1] ** 2)
    ones = small + [[rng.randint(-999, 999), rng.choice([0, rng.randint(-999, 999)])] for _ in range(20)]
    for x in ones:
        t = rng.choice(["cd", "cf", "ce"])
        e = rng.choice([0, rng.randint(-lim[t], lim[t])])
        add("norm", t, x, [0, 0], e=e)
        for op in ("cnegs", "conj", "isreal", "parts"):
            add(op, t, x, [0, 0], e=rng.choice([e, wide[t], -wide[t], rng.randint(-wide[t], wide[t])]))
        x = [abs(v) % 23 * (1 if v >= 0 else -1) for v in x]
        add("abs", t, x, [0, 0], e=rng.choice([0, rng.randint(-lim[t] // 2, lim[t] // 2)]))
        y = rng.choice(small)
        x = [v % 15 for v in x]
        add("dist", t, x, y)
    for x in ([3, 4], [-5, 12], [8, -15], [0, 7], [-9, 0], [20, 21], [0, 0]):
        for t in CX:
            add("abs", t, x, [0, 0])
            add("dist", t, [x[0] + 2, x[1] - 1], [2, -1])
    for k in range(-26, 27):
        add("cexp", rng.choice(["cd", "ce"]), [0, 0], [0, 0], k=k, e2=rng.randint(-40, 40))
    add("cexp", "cd", [0, 0], [0, 0], k=0, e2=0)
    # element-wise forms
    for n in (0, 1, 2, 3, 5, 8) if not ctx.thorough else range(0, 17):
        for t in ("cd", "cf"):
            z = [[rng.randint(-9, 9), rng.choice([0, rng.randint(-9, 9)])] for _ in range(n)]
            T = CX[t]
            v = vec(t, z, False)
            for fn in ("real", "imag", "norm", "abs"):
                s = {"real": "%s.real()", "imag": "%s.imag()", "norm": "%s.norm()", "abs": "%s.abs()"}[fn]
                cpp = "vector<int, %d>{%s}" % (n, ", ".join("(cm::%s(%s)[%d] == %s ? 1 : 0)" % (
                    fn, v, i, s % num(t, z[i], False)) for i in range(n)))
                add("elem", t, [0, 0], [0, 0], cpp=cpp)
            sm = [[a / 4, b / 3] for a, b in z]
            cpp = "vector<int, %d>{%s}" % (n, ", ".join("(exp(%s)[%d] == exp(%s) ? 1 : 0)" % (v, i, num(t, z[i], False)) for i in range(n)))
            add("elem", t, [0, 0], [0, 0], cpp=cpp)
    judge(ctx, rows, True, ["c11", "asan", "o2"] + (["c20", "o3", "emb", "c14"] if ctx.thorough else []), "complex")
    ctx.assumptions += ["operands are Gaussian integers times powers of two (exact results), quotients, magnitudes and exponentials are "
                        "compared within 1e-12 (double), 1e-4 (float) relative to the result; g++ only, the clang build needs a submodule "
                        "that is not present"]


# ---- A04: text forms
TEXT_HEAD = r'''
#include <array>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>
// the fixed-point library is not in the repository; the header needs its class declared
namespace fpm {
template <typename T1, typename T2, unsigned B> class fixed {
 public:
  explicit fixed(T1 r) : r_(r) {}
  explicit operator double() const { return static_cast<double>(r_) / (1 << B); }
  T1 raw_value() const { return r_; }
 private:
  T1 r_;
};
}
#include <embedded/signal/filter.h>
#include <embedded/ostream_ops.h>
using embedded::cmath::complex;
using embedded::cmath::vector;
typedef long double ld;
struct named { std::string s; };
std::ostream& operator<<(std::ostream& os, named const& n) { return os << n.s; }
template <typename T> T L(long x) { volatile T y = static_cast<T>(x); return y; }
template <typename X> void show(int id, std::string pre, std::string post, X const& x) {
  std::ostringstream os;
  std::ios::fmtflags const f = os.flags();
  std::streamsize const p = os.precision();
  char const c = os.fill();
  os << pre;
  std::ostream& r = os << x;
  bool const same = &r == &os;
  bool const kept = os.flags() == f && os.precision() == p && os.fill() == c && os.good();
  r << post;
  std::cout << "{\"id\":" << id << ",\"same\":" << same << ",\"kept\":" << kept << ",\"text\":\"" << os.str() << "\"}" << std::endl;
}
'''


def a04(ctx):
    ctx.model_check("TextMC", "SPECIFICATION Spec\nCONSTANT Raw = {%s}\nINVARIANT Distinct\nCHECK_DEADLOCK FALSE\n" % (
        "0,11,12,13,23" if ctx.thorough else "0,11,12,13"))
    rng = ctx.rng
    rows = []
    ctypes = ["int", "double", "float", "ld"]

    def n_(big=True):
        return rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-99999, 99999) if big else 3])

    def number(t):
        v = n_()
        return "L<%s>(%d)" % (t, v), ["n", v]

    def cx(t):
        a, b = n_(), n_()
        return "complex<%s>(L<%s>(%d), L<%s>(%d))" % (t, t, a, t, b), ["c", a, b]

    def named(_):
        s = "".join(rng.choice("ab,[]{}+-j= ") for _ in range(rng.randint(0, 5)))
        return "named{\"%s\"}" % s, ["t", s]

    def fixed(_):
        k = rng.choice([4, 8, 20])
        v = rng.randint(-900, 900)
        return "fpm::fixed<std::int32_t, std::int64_t, %d>(%d)" % (k, v << k if v >= 0 else -(-v << k)), ["f", v, v << k if v >= 0 else -(-v << k)]

    def vecof(el, tn, n, t, arr=False):
        es_ = [el(t) for _ in range(n)]
        return ("std::array<%s, %d>{{%s}}" if arr else "vector<%s, %d>{%s}") % (tn, n, ", ".join(e[0] for e in es_)), ["v", [e[1] for e in es_]]
    for _ in range(900 if ctx.thorough else 160):
        t = rng.choice(ctypes)
        q = rng.randrange(9)
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 13])
        arr = rng.random() < .3
        if q in (0, 2) and t == "int":
            t = "double"
        if q == 0:
            r = cx(t)
        elif q == 1:
            r = vecof(number, t, n, t, arr)
        elif q == 2:
            r = vecof(cx, "complex<%s>" % t, n, t, arr)
        elif q == 3:
            r = vecof(named, "named", max(n, 1), t, True)
        elif q == 4:
            r = fixed(t)
        elif q == 5:
            F = "double"
            z, p = vecof(cx, "complex<%s>" % F, n, F), vecof(cx, "complex<%s>" % F, max(n, 1), F)
            g = number(F)
            r = "embedded::signal::detail::zpk_value<%d, %d, %s>(%s, %s, %s)" % (n, max(n, 1), F, z[0], p[0], g[0]), ["z", z[1], p[1], g[1]]
        elif q == 6:
            # a section of real zeros a, b and poles c, d and gain g
            a, b, c, d, g = [rng.randint(-9, 9) for _ in range(5)]
            g = g or 1
            C = lambda x: "complex<double>(%d, 0)" % x
            r = ("embedded::signal::sos_section<%s>(vector<complex<double>, 2>{%s, %s}, vector<complex<double>, 2>{%s, %s}, %d.0)" % (
                rng.choice(["double", "float", "ld"]), C(a), C(b), C(c), C(d), g),
                ["s", ["v", [["n", g], ["n", -g * (a + b)], ["n", g * a * b]]], ["v", [["n", 1], ["n", -(c + d)], ["n", c * d]]]])
            if 0 in (g * a * b, c * d, a + b, c + d):
                continue                # a zero may come out with a sign
        elif q == 7:
            m = rng.randint(1, 3)
            es_ = [vecof(number, t, m, t, arr) for _ in range(max(n, 1))]
            r = ("std::array<%s, %d>{{%s}}" if arr else "vector<%s, %d>{%s}") % (
                ("std::array<%s, %d>" if arr else "vector<%s, %d>") % (t, m), max(n, 1), ", ".join(e[0] for e in es_)), ["v", [e[1] for e in es_]]
        else:
            r = vecof(fixed, "", 1, t, True)
            m = r[0][r[0].index("fpm"):r[0].index(">(") + 1]
            r = r[0].replace("array<,", "array<%s," % m), r[1]
        rows.append({"cpp": r[0], "v": r[1], "pre": rng.choice(["", "", "x ", "["]), "post": rng.choice(["", "!", "]"])})
    src = TEXT_HEAD + "int main() {\n" + "".join("  show(%d, \"%s\", \"%s\", %s);\n" % (i, r["pre"], r["post"], r["cpp"]) for i, r in enumerate(rows)) + "}\n"
    f = ctx.write("text.cpp", src)
    seen = {}

    def one(v):
        exe = ctx.compile_one(f, v)
        ls = [json.loads(x) for x in ctx.drive(exe, "", label="text forms, build " + v)]
        if [x["id"] for x in ls] != list(range(len(rows))):
            raise Violation("text forms, build %s: not every value was printed" % v)
        ev = [dict(v=r["v"], pre=r["pre"], post=r["post"], text=x["text"], same=x["same"], kept=x["kept"]) for r, x in zip(rows, ls)]
        return v, "".join(json.dumps(e) + "\n" for e in ev), ev
    for v, t, ev in ctx.pmap(one, ["c11", "asan", "o2"] + (["c20", "c14", "dbg"] if ctx.thorough else [])):
        ctx.add("values_printed", len(ev))
        ctx.add("traces_validated_against_impl")
        if t in seen:
            continue
        seen[t] = v
        ctx.validate("TextTrace", TCFG, ctx.write("text_%s.ndjson" % v, t), len(ev), label="text forms, build " + v, files={"text.cpp": src})
        ctx.sample(ev[0])
    ctx.assumptions += ["whole numbers in the stream's default format (no width, no negative zero); fpm::fixed is a stand-in for the library that is not present"]


CHECKS = {"A01": ("model_checking", a01), "A02": ("model_checking", a02), "A03": ("model_checking", a03), "A04": ("model_checking", a04)}
