"""U01, U02: facts about types, emitted by TLC and compiled as static assertions."""
from vlib import CheckError, Violation

VARS_Q = ["c11", "c14", "o2", "c20", "clang11", "clang", "emb"]
VARS_T = VARS_Q + ["dbg", "o3", "clang_emb"]
LEN = "CONSTANT Thorough = %s\n"


def b(x):
    return "true" if x else "false"


def control(ctx, src, variant):
    """the program with the library's names replaced by the harness's own must compile: otherwise the check is wrong"""
    try:
        ctx.compile_one(src, variant, syntax_only=True, newest="c++14")
    except Violation as v:
        raise CheckError("the control program does not compile: " + v.what)


# ------------------------------------------------------------------ U01
SEQ_PRE = """
#include <cstddef>
#include <cstdint>
#include <limits>
#include <memory>
#include <tuple>
#include <type_traits>
%s
typedef std::unique_ptr<int> up;
struct S {};
template <typename... T> using typelist = lib::typelist<T...>;
template <typename...> class holder;             // only declared: nothing may need its definition
template <typename...> struct holder2 { static_assert(true, ""); };
template <typename> struct one;
template <typename, typename> class two;
template <typename, typename, typename> struct three;
template <typename T, T... I> struct expected {};
template <typename T, T... I> expected<T, I...> deduce(lib::integer_sequence<T, I...>);
template <typename Seq, typename T, T... I> struct sequence_is {
  typedef lib::integer_sequence<T, I...> plain;
  static constexpr bool value = std::is_base_of<plain, Seq>::value && std::is_convertible<Seq, plain>::value &&
    std::is_same<decltype(deduce(std::declval<Seq>())), expected<T, I...>>::value &&
    std::is_same<decltype(deduce(Seq{})), expected<T, I...>>::value &&
    std::is_same<typename Seq::value_type, T>::value &&
    std::is_same<typename std::remove_cv<decltype(Seq::size())>::type, std::size_t>::value &&
    Seq::size() == sizeof...(I) && Seq{}.size() == sizeof...(I) && plain::size() == sizeof...(I) && std::is_empty<Seq>::value;
};
template <typename T> constexpr T lo(int d) { return static_cast<T>(std::numeric_limits<T>::min() + d); }
template <typename T> constexpr T hi(int d) { return static_cast<T>(std::numeric_limits<T>::max() + d); }
template <typename T> constexpr T at(int d) { return static_cast<T>(d); }
"""
SEQ_LIB = """#include <embedded/utility/integer_sequence.h>
#include <embedded/typelist.h>
namespace lib = embedded;"""
SEQ_CONTROL = """#include <utility>
namespace lib {
using std::integer_sequence;
template <typename T, std::size_t N> using make_integer_sequence = std::make_integer_sequence<T, N>;
template <typename T, T B, typename S> struct shift;
template <typename T, T B, T... I> struct shift<T, B, std::integer_sequence<T, I...>> { typedef std::integer_sequence<T, T(B + I)...> type; };
template <typename T, T B, T E> using make_integer_range = typename shift<T, B, std::make_integer_sequence<T, T(E - B)>>::type;
template <std::size_t N> using make_index_sequence = make_integer_sequence<std::size_t, N>;
template <std::size_t B, std::size_t E> using make_index_range = make_integer_range<std::size_t, B, E>;
template <std::size_t... I> using index_sequence = std::integer_sequence<std::size_t, I...>;
template <typename... T> using index_sequence_for = make_index_sequence<sizeof...(T)>;
template <typename... T> struct typelist {
  template <typename... U> using append = typelist<T..., U...>;
  template <template <typename...> class X> using to = X<T...>;
};
}"""


def seq_source(rows, pre):
    out = [SEQ_PRE % pre]
    dead = {"void", "double&", "int", "char", "S"}
    for n, r in enumerate(rows):
        k = r["k"]
        if k == "tl":
            name = lambda kind, l: "%s<%s>" % (kind, ", ".join(l))
            want = name(r["tkind"], r["to"])
            if r["op"] == "append":
                got = "%s::append<%s>" % (name(r["fkind"], r["from"]), ", ".join(r["arg"]))
            else:
                got = "%s::to<%s>" % (name(r["fkind"], r["from"]), "lib::typelist" if r["tkind"] == "typelist" else r["tkind"])
            msg = "%s is not %s" % (got, want)
            out.append('static_assert(std::is_same<%s, %s>::value, "%s");' % (got, want, msg))
            continue
        t, s = r["t"], r["s"]
        fn = {"0": "at", "max": "hi", "min": "lo"}[r.get("o", "0")]
        lit = lambda v: "%s<%s>(%d)" % (fn, t, v)
        vals = "".join(", " + lit(v) for v in s)
        if k == "seq":
            got = "lib::make_integer_sequence<%s, %d>" % (t, r["n"])
        elif k == "iseq":
            got = "lib::make_index_sequence<%d>" % r["n"]
        elif k == "for":
            ts = ["int", "void", "up", "S&", "int", "double", "char(int)"]
            got = "lib::index_sequence_for<%s>" % ", ".join(ts[i % len(ts)] for i in range(r["n"]))
        elif k == "range":
            got = "lib::make_integer_range<%s, %s, %s>" % (t, lit(r["b"]), lit(r["e"]))
        elif k == "irange":
            got = "lib::make_index_range<%d, %d>" % (r["b"], r["e"])
        else:
            got = "lib::integer_sequence<%s%s>" % (t, vals)
            if t == "std::size_t":
                out.append('static_assert(std::is_same<%s, lib::index_sequence<%s>>::value, "index_sequence");' % (got, vals[2:]))
        d = "%s is not %s" % (got, s if len(s) < 12 else "0..%d" % (len(s) - 1))
        out.append('static_assert(sequence_is<%s, %s%s>::value, "%s");' % (got, t, vals, d.replace('"', "'")))
    out.append("int main() {}")
    return "\n".join(out) + "\n"


def u01(ctx):
    r = ctx.model_check("MetaSeq", "SPECIFICATION Spec\nINVARIANT TypeOK\nPROPERTY Kept\nCHECK_DEADLOCK FALSE\n" + LEN % str(ctx.thorough).upper(), workers=1)
    rows = r.printed()
    seen, uniq = set(), []
    for x in rows:
        s = str(sorted(x.items()))
        if s not in seen:
            seen.add(s)
            uniq.append(x)
    if len(uniq) < 2500:
        raise CheckError("only %d facts" % len(uniq))
    ctl = ctx.write("control.cpp", seq_source(uniq, SEQ_CONTROL))
    control(ctx, ctl, "o2")
    f = ctx.write("sequences.cpp", seq_source(uniq, SEQ_LIB))
    vs = VARS_T if ctx.thorough else VARS_Q
    ctx.pmap(lambda v: ctx.compile_one(f, v, syntax_only=True, newest="c++14"), vs)
    ctx.add("facts", len(uniq))
    ctx.cov["traces_validated_against_impl"] += len(uniq) * len(vs)
    for x in uniq[:2] + uniq[-2:]:
        ctx.sample(x)
    ctx.assumptions.append("lengths up to %d" % max(len(x.get("s", [])) for x in uniq))


# ------------------------------------------------------------------ U02
TR_PRE = """
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
%s
typedef std::unique_ptr<int> up;
struct S { int a; };
struct B { int b; };
struct D : B {};
struct E { operator int() const; };
struct I { I(int); };
struct X { explicit operator int() const; };
// conjunction members
template <int K> struct t : std::true_type { static constexpr int id = K; };
template <int K> struct f : std::false_type { static constexpr int id = K; };
template <int K> struct t3 : std::integral_constant<int, 3> { static constexpr int id = K; };
template <int K> struct f0 : std::integral_constant<int, 0> { static constexpr int id = K; };
template <int K> struct p { static_assert(K < 0, "a member behind the first false one was instantiated"); static constexpr bool value = true; };
template <typename C, typename M, bool V, int K> struct conj_is {
  static constexpr bool value = bool(C::value) == V && std::is_base_of<M, C>::value && C::id == K && std::is_same<decltype(C::value), decltype(M::value)>::value;
};
// callables
struct cls_private { private: int operator()(int) const; int operator()() const; };
struct cls_deleted { int operator()(int) const = delete; int operator()() const = delete; };
struct cls_ambiguous { int operator()(int, int = 0) const; int operator()(int, long = 0) const; int operator()(double = 0) const; int operator()(S* = 0) const; };
struct cls_default { int operator()(int, int = 1, double = 2) const; };
struct cls_variadic { int operator()(...) const; };
struct cls_generic { template <typename T> int operator()(T) const; };
struct cls_pack { template <typename... T> int operator()(T&&...) const; };
struct cls_two { int operator()(int) const; int operator()(int, int) const; };
struct cls_base : cls_two { int operator()(int) const; };
struct cls_virtual { virtual int operator()(int) const = 0; };
typedef int fun1(int);
typedef int fun0();
typedef int (funv)(...);
struct cls_surrogate { operator fun1*() const; };
#if __cplusplus >= 201703L
typedef int funn(int) noexcept;
#else
typedef int funn(int);
#endif
typedef std::function<int(int)> std_function;
auto l1 = [](int x) { return x; };
auto l2 = [](int x) mutable { return x; };
typedef decltype(l1) lambda;
typedef decltype(l2) mlambda;
"""
TR_LIB = """#include <embedded/type_traits/conjunction.h>
#include <embedded/type_traits/is_invocable.h>
namespace lib = embedded;"""
TR_CONTROL = """namespace lib { using std::conjunction; using std::is_invocable_r; }"""


def trait_source(rows, pre):
    out = [TR_PRE % pre]
    types = {}
    for r in rows:
        if r["k"] == "conj":
            ms = ["%s<%d>" % (m, i + 1) for i, m in enumerate(r["ms"])]
            got = "lib::conjunction<%s>" % ", ".join(ms)
            if not ms:
                out.append('static_assert(%s::value && std::is_base_of<std::true_type, %s>::value, "empty conjunction");' % (got, got))
            else:
                out.append('static_assert(conj_is<%s, %s, %s, %d>::value, "%s is not %s by its member %d");' % (
                    got, ms[r["base"] - 1], b(r["value"]), r["base"], got, b(r["value"]), r["base"]))
            continue
        if r["part"] == "E":
            fn = r["callee"]
        else:
            key = (tuple(r["quals"]), r["ret"], tuple(r["pars"]))
            if key not in types:
                types[key] = "T%d" % len(types)
                out.append("struct %s { %s };" % (types[key], " ".join(
                    "%s operator()(%s) %s;" % (r["ret"], ", ".join(r["pars"]), q.replace("const&", "const &").replace("const&&", "const &&")) for q in r["quals"])))
            fn = types[key] + r["callee"][1:]
        args = "".join(", " + a for a in r["args"])
        desc = "%s called as %s(%s) giving %s: invocable is not %s" % (
            "/".join(q or "mutable" for q in r["quals"]) + " " + r["ret"] + "(" + ",".join(r["pars"]) + ")" if r["quals"] else fn,
            r["callee"], args[2:], r["R"], b(r["ok"]))
        got = "lib::is_invocable_r<%s, %s%s>" % (r["R"], fn, args)
        out.append('static_assert(%s::value == %s, "%s");' % (got, b(r["ok"]), desc))
    out.append("int main() {}")
    return "\n".join(out) + "\n"


def u02(ctx):
    r = ctx.model_check("MetaTraits", "SPECIFICATION Spec\nINVARIANT NeverPoisoned Decided\nCHECK_DEADLOCK FALSE\n" + LEN % str(ctx.thorough).upper(), workers=1)
    rows = r.printed()
    if len(rows) < 2000:
        raise CheckError("only %d facts" % len(rows))
    # the standard traits, where there are any, agree with the specification
    ctl = ctx.write("control.cpp", trait_source(rows, TR_CONTROL))
    ctx.pmap(lambda v: control(ctx, ctl, v), ["o2", "c20", "clang"] if ctx.thorough else ["o2"])
    f = ctx.write("traits.cpp", trait_source(rows, TR_LIB))
    vs = VARS_T if ctx.thorough else VARS_Q
    ctx.pmap(lambda v: ctx.compile_one(f, v, syntax_only=True, newest="c++14"), vs)
    ctx.add("facts", len(rows))
    ctx.cov["traces_validated_against_impl"] += len(rows) * len(vs)
    for x in rows[:2] + rows[-2:]:
        ctx.sample(x)
    ctx.assumptions.append("callables are invoked by call syntax: pointers to members are out of scope of the back-port")


CHECKS = {"U01": ("model_checking", u01), "U02": ("model_checking", u02)}
