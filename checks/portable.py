"""P01: programs of many units, including the headers in any order, against Portable.tla; P02: no part uses dynamic memory."""
import json, os
from vlib import CheckError, Violation, VARIANTS, HARNESS, REPO

PRE = """
extern "C" void port_include(const char*);
extern "C" void port_use(const char*, int, const long*);
extern "C" void port_close();
"""
# facility -> (what stands at namespace scope, statements filling long o[32] and int n)
SNIP = {
 "config": ("", "o[n++] = LIBEMB_HAS_EXCEPTIONS; o[n++] = LIBEMB_HAS_RTTI;"),
 "names": ("", """char const* s = LIBEMB_STRINGIFY(LIBEMB_CONCAT(a, b)); o[n++] = s[0]; o[n++] = s[1]; o[n++] = s[2];
   int LIBEMB_UNIQUE_NAME(x_) = 1;
   int LIBEMB_UNIQUE_NAME(x_) = 2;
   o[n++] = 3;"""),
 "function": ("struct adder { long t; long operator()(long x) { return t += x; } };",
   "embedded::function<long(long), 2 * sizeof(long)> f{adder{10}}; o[n++] = f(1); o[n++] = f(2);"
   "embedded::function<long(long), 2 * sizeof(long)> g{static_cast<embedded::function<long(long), 2 * sizeof(long)>&&>(f)}; o[n++] = g(3); o[n++] = f ? 0 : 1;"),
 "ring": ("", """alignas(long) unsigned char m[4 * sizeof(long)];
   embedded::circular_buffer_adapter<long> r(reinterpret_cast<long*>(m), 4);
   for (long i = 1; i <= 4; ++i) r.push_back(i);
   r.pop_front(2); r.push_back(5); r.emplace_back(6);
   for (auto i = r.begin(); i != r.end(); ++i) o[n++] = *i;
   o[n++] = static_cast<long>(r.size()); o[n++] = r.full() ? 1 : 0;"""),
 "varint": ("", """unsigned char b[8] = {}; auto e = embedded::varint::encode(300u, b, b + 8); for (auto p = b; p != e; ++p) o[n++] = *p;
   o[n++] = e - b; o[n++] = static_cast<long>(embedded::varint::size(-2));
   e = embedded::varint::encode(-2, b); int v = 0; o[n] = embedded::varint::decode(v, b, e) == e ? v : 99; ++n;"""),
 "guard": ("struct latch { long n, m; void lock() { ++n; } void unlock() { ++m; } };",
   "latch l = {0, 0}; { embedded::lock_guard<latch> g(l); o[n++] = l.n; o[n++] = l.m; } o[n++] = l.n; o[n++] = l.m;"),
 "mover": ("struct load { long v; explicit load(long x) : v(x) {} load(load&& x) noexcept : v(x.v) { x.v = 0; } };",
   "embedded::move_wrapper<load> a(load(42)); embedded::move_wrapper<load> b(a); o[n++] = b->v; o[n++] = (*a).v;"),
 "types": ("template <typename... T> struct counted { static long get() { return sizeof...(T); } };",
   "o[n++] = embedded::typelist<int, char>::append<long>::to<counted>::get();"),
 "conj": ("struct yes { static constexpr bool value = true; }; struct no { static constexpr bool value = false; };",
   "o[n++] = embedded::conjunction<yes, yes>::value ? 1 : 0; o[n++] = embedded::conjunction<yes, no, yes>::value ? 1 : 0; o[n++] = embedded::conjunction<>::value ? 1 : 0;"),
 "invocable": ("struct fun { long operator()(int) const { return 0; } };",
   "o[n++] = embedded::is_invocable_r<long, fun, int>::value ? 1 : 0; o[n++] = embedded::is_invocable_r<long, fun, fun>::value ? 1 : 0; o[n++] = embedded::is_invocable_r<void, fun, short>::value ? 1 : 0;"),
 "sequence": ("template <typename T, T... I> void list(embedded::integer_sequence<T, I...>, long* o, int& n) { long v[] = {static_cast<long>(I)...}; for (long x : v) o[n++] = x; }",
   "list(embedded::make_index_sequence<4>{}, o, n); list(embedded::make_integer_range<int, 4, 6>{}, o, n);"),
 "variant": ("", "embedded::variant<long> v(7); o[n++] = embedded::get<0>(v);"),
 "vector": ("struct lesser { constexpr bool operator()(long const& a, long const& b) const { return a < b; } };",
   "embedded::cmath::vector<long, 3> v{3l, 1l, 2l}; auto w = v.sort(lesser()); for (int i = 0; i < 3; ++i) o[n++] = w[i]; o[n++] = prod(w); o[n++] = static_cast<long>(w.size());"),
 "complex": ("", """typedef embedded::cmath::complex<double> C; constexpr C z = C(1, 2) * C(3, -1); o[n++] = static_cast<long>(z.real()); o[n++] = static_cast<long>(z.imag());
   embedded::cmath::vector<C, 2> v{C(1, 9), C(2, 8)}; auto r = real(v); o[n++] = static_cast<long>(r[0]); o[n++] = static_cast<long>(r[1]);"""),
 "number": ("", "typedef embedded::cmath::complex<double> K; K z = K(1, 2) * K(1, 2).conj(); o[n++] = static_cast<long>(z.real()); o[n++] = static_cast<long>(z.imag());"),
 "conv": ("", "auto c = convolve_full(embedded::cmath::vector<long, 3>{1l, 2l, 3l}, embedded::cmath::vector<long, 2>{1l, -1l}); for (int i = 0; i < 4; ++i) o[n++] = c[i];"),
 "poly": ("", "auto c = poly(embedded::cmath::vector<long, 3>{1l, 2l, 3l}); for (int i = 0; i < 4; ++i) o[n++] = c[i];"),
 "elem": ("", """constexpr double p = embedded::cmath::pow(2.0, 10.0), q = embedded::cmath::sqrt(144.0), r = embedded::cmath::floor(-2.5);
   o[n++] = static_cast<long>(p); o[n++] = static_cast<long>(q); o[n++] = static_cast<long>(r); o[n++] = embedded::cmath::min(2l, 5l); o[n++] = embedded::cmath::max(2l, 5l);"""),
 "pi": ("", "o[n++] = static_cast<long>(1000000 * embedded::cmath::pi<double>());"),
 "record": ("constexpr auto recorded = embedded::signal::iirfilter<>(1000).lowpass(embedded::signal::butterworth<3>(), 100).sos<float>(); LIBEMB_DEBUG_FILTER_COEFS_NAME(recorded, \"r\");", "o[n++] = 1;"),
 "text": ("""struct sink : std::streambuf { long* o; int* n; int_type overflow(int_type c) override { o[(*n)++] = c; return c; } };""",
   """sink s; s.o = o; s.n = &n; std::ostream os(&s);
   os << embedded::cmath::vector<int, 2>{1, 2} << embedded::cmath::complex<double>(3, 4) << std::array<int, 1>{{5}};"""),
 "sectiontext": ("""struct sink2 : std::streambuf { long* o; int* n; int_type overflow(int_type c) override { if (*n < 4) o[(*n)++] = c; return c; } };""",
   """sink2 s; s.o = o; s.n = &n; std::ostream os(&s);
   static constexpr auto d = embedded::signal::iirfilter<>(1000).lowpass(embedded::signal::butterworth<2>(), 100).sos<double>(); os << d.sos()[0];"""),
}
DC = """template <typename D> long settled(D const& d) { auto i = d.instance(); double y = 0; for (int k = 0; k < 20000; ++k) y = i(1.0); return static_cast<long>(1000 * y + 0.5); }
template <typename D> void both%s(D const& d, long* o, int& n) { auto s = d.template sos<double>(); o[n++] = settled%s(s); auto p = d.template poly<double>(); o[n++] = settled%s(p); }
"""
for f, fams in (("butter", ("butterworth<3>()",)), ("bessel", ("bessel<3>()",)), ("cheby", ("chebyshev1<3>(1.0)", "chebyshev2<4>(40.0)"))):
    SNIP[f] = (DC.replace("settled(D", "settled%s(D") % (f, f, f, f),
               "static constexpr embedded::signal::iirfilter<double> design(1000.0); " +
               " ".join("both%s(design.lowpass(embedded::signal::%s, 60.0), o, n);" % (f, x) for x in fams))

# designed at run time, of an order that is beyond what compilers evaluate by themselves
SNIP["delay"] = (DC.replace("settled(D", "settled%s(D") % (("delay",) * 4),
                 "double volatile fs = 1000.0; auto z = embedded::signal::iirfilter<double>(fs).lowpass(embedded::signal::bessel<20>(), 60.0).sos<double>(); o[n++] = settleddelay(z);")

FPM = """#pragma once
#include <cstdint>
// stands for the fixed-point library, which is not in the repository
namespace fpm {
template <typename T1, typename T2, unsigned B> class fixed {
 public:
  explicit operator double() const { return static_cast<double>(r_) / (1 << B); }
  T1 raw_value() const { return r_; }
 private:
  T1 r_;
};
}
"""
VARIANT = """#pragma once
// stands for the variant library, which is not in the repository
namespace mpark {
template <typename T> struct variant { T v; explicit variant(T x) : v(x) {} };
template <int> struct first;
template <int N, typename T> T& get(variant<T>& x) { return x.v; }
}
"""
MAIN = r"""
#include <cstdio>
extern "C" void port_include(const char* h) { std::printf("{\"k\": \"include\", \"h\": \"%s\"}\n", h); }
extern "C" void port_use(const char* f, int n, const long* o) {
  std::printf("{\"k\": \"use\", \"f\": \"%s\", \"ans\": [", f);
  for (int i = 0; i < n; ++i) std::printf("%s%ld", i ? ", " : "", o[i]);
  std::printf("], \"conf\": {\"exceptions\": @EXC@, \"rtti\": @RTTI@}}\n");
}
extern "C" void port_close() { std::printf("{\"k\": \"close\"}\n"); std::fflush(stdout); }
"""


# the other source of the elementary functions, by a stand-in
GCEM = "-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR -I%s/gcem" % HARNESS


def unit_text(i, u):
    s = [PRE]
    for h in u["inc"]:
        s.append("#include <%s>" % (h if h.startswith("fpm") else "embedded/" + h))
    s.append("namespace {")
    s += [SNIP[f][0] for f in sorted(u["have"])]
    s.append("}")
    s.append('extern "C" void unit_%d() {' % i)
    s += ['  port_include("%s");' % h for h in u["inc"]]
    for f in sorted(u["have"]):
        s.append('  { long o[32] = {}; int n = 0; %s port_use("%s", n, o); }' % (SNIP[f][1], f))
    s.append("  port_close();\n}")
    return "\n".join(s) + "\n"


def p01(ctx):
    ctx.model_check("PortableMC", "SPECIFICATION Spec\nCONSTANTS MaxInc = %d\n Some = TRUE\n Emit = FALSE\nINVARIANTS OrderFree Once Alone\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n"
                    % (5 if ctx.thorough else 4))
    rows = ctx.tlc("PortableMC", "SPECIFICATION Spec\nCONSTANTS MaxInc = 1\n Some = FALSE\n Emit = TRUE\nCHECK_DEADLOCK FALSE\n", workers=1).printed()
    rows.sort(key=str)
    # headers for internal use are included while they are there
    for r in rows:
        r["inc"] = [h for h in r["inc"] if "detail/" not in h or os.path.exists(os.path.join(REPO, "include/embedded", h))]
    units = [r for r in rows if r["k"] == "unit"]
    orders = [r for r in rows if r["k"] == "order"]
    if len(units) < 70 or len(orders) < 40:
        raise CheckError("only %d units" % len(rows))
    ctx.add("units_specified", len(rows))
    inc = ctx.path("inc")
    for d, n, t in (("fpm", "fixed.hpp", FPM), ("mpark", "variant.hpp", VARIANT)):
        os.makedirs(os.path.join(inc, d), exist_ok=True)
        with open(os.path.join(inc, d, n), "w") as f:
            f.write(t)
    full = [o for o in orders if not o["plain"]]
    some = [o for o in orders if o["plain"]]
    rnd = ctx.rng
    configs = [("c11", "-O0"), ("emb", ""), ("o2", GCEM + " -fno-exceptions"), ("c20", "-O0 -fno-rtti"), ("clang11", ""), ("clang_emb", "")]
    if ctx.thorough:
        configs += [("c14", "-O0"), ("dbg", ""), ("o3", ""), ("clang", "")]
    for variant, opt in configs:
        clang = variant.startswith("clang")
        chosen = [u for u in units if u["plain"] or not clang]
        heavy = lambda u: any(h.startswith("signal") for h in u["inc"])
        if not ctx.thorough and variant in ("o2", "emb"):             # costly: half of those that differ in order or repeat only
            chosen = [u for i, u in enumerate(chosen) if not (len(u["inc"]) > 1 and heavy(u) and i % 2)]
        chosen = chosen + rnd.sample(some if clang else full, 30 if ctx.thorough and not clang else 4)
        jobs = []
        for i, u in enumerate(chosen):
            jobs.append((ctx.write("%s_%d.cpp" % (variant, i), unit_text(i, u)), i))
        main = MAIN + "\n".join('extern "C" void unit_%d();' % i for i in range(len(chosen))) + "\nint main() {\n" + "\n".join("  unit_%d();" % i for i in range(len(chosen))) + "\n}\n"
        flags = VARIANTS[variant][1] + " " + opt
        main = main.replace("@EXC@", "0" if "-fno-exceptions" in flags else "1").replace("@RTTI@", "0" if "-fno-rtti" in flags else "1")
        jobs.append((ctx.write("%s_main.cpp" % variant, main), "main"))
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))

        def build(j):
            out = ctx.path("%s_%s.o" % (variant, j[1]))
            try:
                ctx.compile_one(j[0], variant, out=out, extra="-c %s" % opt, includes="-I" + inc)
            except Violation as v:
                if j[1] == "main":
                    raise CheckError("harness does not compile: " + v.what)
                u = chosen[j[1]]
                raise Violation("build %s: a unit that includes %s and uses %s does not compile: %s" % (variant, " ".join(u["inc"]), " ".join(u["have"]), v.what), v.files)
            return out
        objs = ctx.pmap(build, jobs)
        exe = ctx.path("prog_" + variant)
        cxx, flags = VARIANTS[variant]
        rc, o, e = ctx.run("%s %s -o %s %s" % (cxx, flags, exe, " ".join(objs)), timeout=300)
        if rc != 0:
            raise Violation("build %s: a program of %d units does not link: %s" % (variant, len(chosen), e[-1500:]), {"link.txt": e})
        lines = ctx.drive(exe, "", label="program of %d units, build %s" % (len(chosen), variant))
        ctx.add("units", len(chosen))
        ctx.add("traces_validated_against_impl")
        ctx.validate("PortableTrace", "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n", ctx.write("port_%s.ndjson" % variant, "\n".join(lines) + "\n"),
                     len(lines), label="program of %d units, build %s" % (len(chosen), variant))
        if len([l for l in lines if '"close"' in l]) != len(chosen):
            raise CheckError("units missing")
        ctx.sample(json.loads(lines[1]))
    ctx.assumptions += ["the fixed-point and variant libraries are stand-ins; clang only with headers that do not need gcem, which is not present"]


# which parts are in which program (compiled separately, as they are costly)
PROGRAMS = [(0, ("ring", "objects", "bulk", "function", "members", "varint", "guard", "mover")), (1, ("vector", "conv", "poly", "complex")),
            (2, ("sos",)), (3, ("polyform",)), (4, ("design",)), (5, ("chebyshev", "bessel"))]


def p02(ctx):
    ctx.model_check("HeapMC", "SPECIFICATION Spec\nCONSTANTS Blocks = {1, 2, 3}\n Emit = FALSE\nPROPERTIES Quiet Untouched\nCHECK_DEADLOCK FALSE\n")
    rows = ctx.tlc("HeapMC", "SPECIFICATION Spec\nCONSTANTS Blocks = {}\n Emit = TRUE\nCHECK_DEADLOCK FALSE\n", workers=1).printed()
    parts = {p for p, n in rows}
    if parts != {p for _, ps in PROGRAMS for p in ps} or len(rows) < 120:
        raise CheckError("unexpected rows")
    ctx.add("rows", len(rows))
    src = os.path.join(HARNESS, "heap_driver.cpp")
    jobs = [(v, k) for k in (4, 3, 2, 5, 1, 0) for v in ["c11", "dbg"] + (["o2", "emb", "c20", "o3"] if ctx.thorough else ["emb"])]
    jobs += [] if ctx.thorough else [("o2", 0), ("o2", 1)]
    jobs += [(v, 0) for v in ("clang11", "clang")]

    def one(j):
        variant, k = j
        exe = ctx.compile_one(src, variant, defs="-DPART=%d" % k)
        mine = sorted([p, n] for p, n in rows if p in PROGRAMS[k][1])
        ctx_rows = "".join("%s %d\n" % (p, n) for p, n in mine)
        lines = ctx.drive(exe, ctx_rows, label="parts %s, build %s" % (" ".join(PROGRAMS[k][1]), variant))
        if len(lines) != len(mine):
            raise CheckError("rows missing: %d of %d" % (len(lines), len(mine)))
        if any(json.loads(l)["done"] != 1 for l in lines):
            raise CheckError("a row that the driver does not know")
        return variant, k, lines
    seen = {}
    for variant, k, lines in ctx.pmap(one, jobs):
        ctx.add("runs_of_parts", len(lines))
        ctx.add("traces_validated_against_impl")
        seen.setdefault("\n".join(lines), (variant, k))
    for t, (variant, k) in seen.items():
        ctx.validate("HeapTrace", "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n", ctx.write("heap_%d_%s.ndjson" % (k, variant), t + "\n"),
                     t.count("\n") + 1, label="parts %s, build %s" % (" ".join(PROGRAMS[k][1]), variant))
        ctx.sample(json.loads(t.split("\n")[0]))
    ctx.assumptions += ["calls of the C and C++ allocators are counted in the process; what exceptions themselves allocate, inserting into a caller's container "
                        "and output streams are not counted"]


CHECKS = {"P01": ("model_checking", p01), "P02": ("model_checking", p02)}
