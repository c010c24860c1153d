"""E01: the elementary functions and constants for constant expressions, against Elementary.tla."""
import json, re
from vlib import CheckError, HARNESS
from signals import big

T = {"f": "float", "d": "double", "e": "long double"}
ONE = {k: "cm::%s({a})" % k for k in ("floor", "ceil", "trunc", "round", "abs", "exp", "expm1", "sin", "cos", "tan", "sinh", "cosh", "tanh")}
EXPR = dict(ONE, **{
    "fmod": "cm::fmod({a}, {b})", "copysign": "cm::copysign({a}, {b})", "min": "cm::min({a}, {b})", "max": "cm::max({a}, {b})",
    "signbit": "T(cm::signbit({a}))", "sqrt": "cm::sqrt({a} * {a} * T(256))", "pow": "cm::pow({a} * T(16), {b} * T(16))",
    "minat": "which({a}, {b}, lesser())", "maxat": "which({a}, {b}, greater())",
    "log2": "cm::log2({p2})", "log10": "cm::log10({p10})", "tgamma": "cm::tgamma({a} * T(16))", "gamma": "cm::tgamma({a} * T(16))",
    "gammahalf": "sq(cm::tgamma({a} * T(16) + T(1) / 2))", "lgamma.exp": "cm::exp(cm::lgamma({a} * T(16)))",
    "log1": "cm::log({a} + T(1))", "acos1": "cm::acos({a} + T(1))",
    "log2.exp": "cm::log2(cm::exp({a})) * cm::log(T(2))", "log10.exp": "cm::log10(cm::exp({a})) * cm::log(T(10))",
    "atan2": "cm::atan2(2 * cm::sin({a}), 2 * cm::cos({a}))", "pow.root": "ipow(cm::pow({a}, 1 / ({b} * T(16))), {k})",
    "pi": "cm::pi<T>()",
    "signbit.nz": "T(cm::signbit(-{a}))", "copysign.nz": "cm::copysign({a} + 1, -{a})", "abs.nz": "T(cm::signbit(cm::abs(-{a})))",
    "round.half": "cm::round({a} + T(1) / 2 - std::numeric_limits<T>::epsilon() / 4)",
    "round.odd": "cm::round({a} + 1 / std::numeric_limits<T>::epsilon() + 1) - (1 / std::numeric_limits<T>::epsilon() + 1)",
    "floor.tiny": "cm::floor({a} - std::numeric_limits<T>::min())", "ceil.tiny": "cm::ceil({a} + std::numeric_limits<T>::min())",
    "trunc.tiny": "cm::trunc({a} - T(1) + std::numeric_limits<T>::epsilon())"})
for f in ("expm1", "log1p", "sinh", "asinh", "tanh", "atanh", "sin", "asin", "tan", "atan"):
    EXPR[f + "_"] = "cm::%s({x})" % f
for f in ("exp", "cos", "cosh", "sin", "tan", "asin", "atan", "sinh", "tanh", "erf", "expm1", "log1p"):
    EXPR[f + "0"] = "cm::%s({a})" % f
for f, g in (("log", "exp"), ("log1p", "expm1"), ("asin", "sin"), ("acos", "cos"), ("atan", "tan"), ("asinh", "sinh"), ("acosh", "cosh"), ("atanh", "tanh")):
    EXPR[f + "." + g] = "cm::%s(cm::%s({a}))" % (f, g)
PRE = """
#include <cstddef>
#include <cstdio>
#include <limits>
#include <embedded/constexpr_math.h>
namespace cm = embedded::cmath;
template <typename T> T L(T x) { volatile T y = x; return y; }
struct lesser { template <typename T> constexpr T const& operator()(T const& a, T const& b) const { return cm::min(a, b); } };
struct greater { template <typename T> constexpr T const& operator()(T const& a, T const& b) const { return cm::max(a, b); } };
template <typename T, typename F> constexpr T which(T const& a, T const& b, F f) { return &f(a, b) == &a ? T(1) : &f(a, b) == &b ? T(2) : T(3); }
template <typename T> constexpr T sq(T x) { return x * x; }
template <typename T> constexpr T ipow(T x, int k) { return k == 0 ? T(1) : x * ipow(x, k - 1); }
static void out(int id, const char* t, long double v) { std::printf("{\\"id\\": %d, \\"t\\": \\"%s\\", \\"v\\": \\"%La\\"}\\n", id, t, v); }
"""
RUN_ONLY = ("lgamma.exp",)                       # std::lgamma is no constant expression


def e01(ctx):
    ctx.overrides()
    ctx.model_check("BigFloatMC", "SPECIFICATION Spec\nCONSTANT Vals = {0,1,9999,12345}\nINVARIANTS Exact Ring Squares Powers Close Cut Override\nCHECK_DEADLOCK FALSE\n")
    ctx.model_check("ElementaryMC", "SPECIFICATION Spec\nCONSTANTS Width = %d\n Emit = FALSE\nINVARIANTS Rounding Remainder Choice Inverses Series Circle\n"
                    "CHECK_DEADLOCK FALSE\n" % (24 if ctx.thorough else 20))
    width = 200 if ctx.thorough else 50
    rows = ctx.tlc("ElementaryMC", "SPECIFICATION Spec\nCONSTANTS Width = %d\n Emit = TRUE\nCHECK_DEADLOCK FALSE\n" % width, workers=1).printed()
    if len(rows) < 900:
        raise CheckError("only %d rows" % len(rows))
    ctx.add("rows", len(rows))
    rows.sort(key=str)

    def text(r, rt):
        op, a, b = r
        l = (lambda x: "L<T>(%s)" % x) if rt else (lambda x: x)
        return EXPR[op].format(a=l("T(%d) / 16" % a), b=l("T(%d) / 16" % b), k=b, p2=l("T(%s)" % (1 << a if a >= 0 else "1.0 / %d" % (1 << -a))),
                               p10=l("T(%d)" % 10 ** max(0, a)),
                               x=l("T(%d) / T(%dUL) / T(%dUL)" % (a, 1 << b // 2, 1 << b - b // 2)) if op.endswith("_") else "")
    jobs = []
    n = 8
    for k in range(n):
        src = [PRE]
        fns = []
        for t in T:
            src.append("static void f_%s() { typedef %s T;" % (t, T[t]))
            for i in range(k, len(rows), n):
                if rows[i][0] not in RUN_ONLY:
                    src.append("  { constexpr T v = %s; out(%d, \"%s\", v); }" % (text(rows[i], False), i, t))
                src.append("  out(%d, \"%s\", %s);" % (i, t, text(rows[i], True)))
            src.append("}")
            fns.append("f_%s();" % t)
        src.append("int main() { %s }" % " ".join(fns))
        f = ctx.write("elem%d.cpp" % k, "\n".join(src) + "\n")
        jobs += [(f, v) for v in ["c11", "o2", "c20", "c20 gcem"] + (["c14", "dbg", "o3", "emb", "asan"] if ctx.thorough else [])]

    def one(j):
        # the last: with the other source of the functions, by a stand-in for the library, which is not in the repository
        v, _, other = j[1].partition(" ")
        exe = ctx.compile_one(j[0], v, defs=other and "-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR", includes=other and "-I%s/gcem" % HARNESS)
        return j[1], ctx.drive(exe, "", label="elementary functions, build %s" % j[1])
    seen = {}
    for v, lines in ctx.pmap(one, jobs):
        if not lines:
            raise CheckError("no results")
        for l in lines:
            d = json.loads(l)
            seen.setdefault((d["id"], d["t"], d["v"]), v)
            ctx.add("evaluations")
    events = []
    for (i, t, v), where in sorted(seen.items()):
        op, a, b = rows[i]
        events.append(json.dumps({"op": op, "a": a, "b": b, "t": t, "r": big(v), "v": v, "build": where, "text": text(rows[i], False)}))
    chunks = [events[i::7] for i in range(7)]

    def val(kc):
        k, c = kc
        f = ctx.write("el%d.ndjson" % k, "\n".join(c) + "\n")
        ctx.validate("ElementaryTrace", "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n", f, len(c), label="elementary functions")
    ctx.pmap(val, enumerate(chunks))
    ctx.add("traces_validated_against_impl", len(jobs))
    for e in events[:: max(1, len(events) // 4)][:4]:
        ctx.sample(json.loads(e))


CHECKS = {"E01": ("model_checking", e01)}
