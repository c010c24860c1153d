// Calls through embedded::function with every declared category of parameters and results; logs what arrives.
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <embedded/function.h>
#include "ledger.h"
#include "json_out.h"

using embedded::function;

struct both {
  int v;
  explicit both(int x) : v(x) { led::born(this); }
  both(both const& o) : v(o.v) { led::need(&o); ++led::copy; led::born(this); }
  both(both&& o) noexcept : v(o.v) { led::need(&o); ++led::move; o.v = -1; led::born(this); }
  ~both() { led::dead(this); }
};
struct moveonly {
  int v;
  explicit moveonly(int x) : v(x) { led::born(this); }
  moveonly(moveonly const&) = delete;
  moveonly(moveonly&& o) noexcept : v(o.v) { led::need(&o); ++led::move; o.v = -1; led::born(this); }
  ~moveonly() { led::dead(this); }
};
template <typename T> struct nm;
template <> struct nm<both> { static const char* s() { return "both"; } };
template <> struct nm<moveonly> { static const char* s() { return "moveonly"; } };

struct val { static const char* s() { return "val"; } template <typename T> using of = T; };
struct ref { static const char* s() { return "ref"; } template <typename T> using of = T&; };
struct cref { static const char* s() { return "cref"; } template <typename T> using of = T const&; };
struct rref { static const char* s() { return "rref"; } template <typename T> using of = T&&; };
struct any { static const char* s() { return "any"; } };
struct voi { static const char* s() { return "void"; } template <typename T> using of = void; };

static void const* g_addr;
static int g_seen, g_cat, g_called;

// callables
template <typename T, typename Q> struct taker {
  int extra;
  int operator()(typename Q::template of<T> t) const {
    g_addr = &t; g_seen = t.v; led::need(&t);
    return t.v + extra;
  }
};
template <typename T> struct taker<T, any> {
  int extra;
  template <typename U> int operator()(U&& t) const {
    g_addr = &t; g_seen = t.v; led::need(&t);
    g_cat = std::is_lvalue_reference<U>::value ? (std::is_const<typename std::remove_reference<U>::type>::value ? 2 : 1) : 3;
    return t.v + extra;
  }
};

template <typename T, typename F> void log_arg(F& f, const char* p, const char* q, const char* a, bool lv, int v, std::true_type) {
  jrec j;
  long long live0 = led::used;
  {
    T t(v);
    g_addr = nullptr; g_seen = -7; g_cat = 0;
    long long c0 = led::copy, m0 = led::move;
    int r = f(t);
    j.str("op", "arg"); j.str("p", p); j.str("q", q); j.str("a", a); j.str("t", nm<T>::s());
    j.num("v", v); j.num("seen", g_seen); j.num("ret", r); j.num("cp", led::copy - c0); j.num("mv", led::move - m0);
    j.num("same", g_addr == &t); j.num("cat", g_cat); j.num("left", t.v);
  }
  j.num("live", led::used - live0); j.num("err", led::err);
  j.emit();
}
template <typename T, typename F> void log_arg(F& f, const char* p, const char* q, const char* a, bool, int v, std::false_type) {
  jrec j;
  long long live0 = led::used;
  {
    T t(v);
    g_addr = nullptr; g_seen = -7; g_cat = 0;
    long long c0 = led::copy, m0 = led::move;
    int r = f(std::move(t));
    j.str("op", "arg"); j.str("p", p); j.str("q", q); j.str("a", a); j.str("t", nm<T>::s());
    j.num("v", v); j.num("seen", g_seen); j.num("ret", r); j.num("cp", led::copy - c0); j.num("mv", led::move - m0);
    j.num("same", g_addr == &t); j.num("cat", g_cat); j.num("left", t.v);
  }
  j.num("live", led::used - live0); j.num("err", led::err);
  j.emit();
}

template <bool L> using lv = std::integral_constant<bool, L>;

template <typename T, typename P, typename Q, bool L> void arg1(int v) {
  typedef typename P::template of<T> A;
  taker<T, Q> c{1};
  {
    function<int(A)> f(c);
    log_arg<T>(f, P::s(), Q::s(), L ? "lval" : "rval", L, v, lv<L>());
    function<int(A)> g(std::move(f));               // also after a move
    log_arg<T>(g, P::s(), Q::s(), L ? "lval" : "rval", L, v + 1, lv<L>());
  }
  {
    function<int(A) const, 64, 32> f(c);
    function<int(A) const, 64, 32> const& k = f;
    log_arg<T>(k, P::s(), Q::s(), L ? "lval" : "rval", L, v + 2, lv<L>());
  }
  {
    function<int(A)> f(std::ref(c));
    log_arg<T>(f, P::s(), Q::s(), L ? "lval" : "rval", L, v + 3, lv<L>());
  }
}

// results
template <typename T, typename Q> struct giver;
template <typename T> struct giver<T, val> { T* src; T operator()() const { ++g_called; return T(src->v); } };
template <typename T> struct giver<T, ref> { T* src; T& operator()() const { ++g_called; return *src; } };
template <typename T> struct giver<T, cref> { T* src; T const& operator()() const { ++g_called; return *src; } };
template <typename T> struct giver<T, rref> { T* src; T&& operator()() const { ++g_called; return static_cast<T&&>(*src); } };
template <typename T> struct giver<T, voi> { T* src; void operator()() const { ++g_called; } };

template <typename T, typename P> struct getres {
  template <typename F> static void get(F& f, T const& src, int& seen, int& same) {
    typename P::template of<T> r = f();
    seen = r.v; same = static_cast<void const*>(&r) == static_cast<void const*>(&src);
  }
};
template <typename T> struct getres<T, rref> {
  template <typename F> static void get(F& f, T const& src, int& seen, int& same) {
    T&& r = f();
    seen = r.v; same = static_cast<void const*>(&r) == static_cast<void const*>(&src);
  }
};
template <typename T> struct getres<T, voi> {
  template <typename F> static void get(F& f, T const&, int&, int&) { f(); }
};

template <typename T, typename P, typename Q> void res1(int v) {
  typedef typename P::template of<T> R;
  for (int mode = 0; mode < 2; ++mode) {
    jrec j;
    long long live0 = led::used;
    {
      T src(v);
      giver<T, Q> c{&src};
      int seen = -7, same = 0;
      g_called = 0;
      long long c0, m0;
      if (mode == 0) {
        function<R()> f(c);
        c0 = led::copy; m0 = led::move;
        getres<T, P>::get(f, src, seen, same);
      } else {
        function<R() const, 32, 32> f(c);
        function<R() const, 32, 32> const& k = f;
        c0 = led::copy; m0 = led::move;
        getres<T, P>::get(k, src, seen, same);
      }
      j.str("op", "res"); j.str("p", P::s()); j.str("q", Q::s()); j.str("t", nm<T>::s());
      j.num("v", v); j.num("seen", seen); j.num("same", same); j.num("called", g_called);
      j.num("cp", led::copy - c0); j.num("mv", led::move - m0);
    }
    j.num("live", led::used - live0); j.num("err", led::err);
    j.emit();
  }
}

static void conv(const char* n, long long v, long long r) {
  jrec j; j.str("op", "conv"); j.str("n", n); j.num("v", v); j.num("r", r); j.emit();
}
struct Base { int b; };
struct Pad { int p; };
struct Derived : Pad, Base {};

struct sum_to { function<int(int)>* self; int operator()(int n) const { return n == 0 ? 0 : n + (*self)(n - 1); } };

#if EXC
struct error_base { int v; virtual ~error_base() {} virtual int kind() const { return 0; } };
struct error_derived : error_base { int kind() const override { return 3; } };
struct error_value { int v; int w; };
struct thrower {
  int* calls; int kind; both b;
  thrower(int* c, int k) : calls(c), kind(k), b(77) {}
  thrower(thrower&& o) noexcept : calls(o.calls), kind(o.kind), b(std::move(o.b)) {}
  int operator()(int v) {
    ++*calls;
    if (b.v != 77) ++led::err;
    if (v < 0) return *calls;
    if (kind == 1) throw v;
    if (kind == 2) throw error_value{v, 1};
    error_derived e; e.v = v; throw e;
  }
};
struct relay {
  function<int(int)>* in;
  both b{78};
  explicit relay(function<int(int)>* i) : in(i) {}
  relay(relay&& o) noexcept : in(o.in), b(std::move(o.b)) {}
  int operator()(int v) { if (b.v != 78) ++led::err; return (*in)(v); }
};
static void throws(int kind, int before, int v, bool nested) {
  jrec j;
  long long live0 = led::used;
  {
    int calls = 0;
    function<int(int), 32, 16> f0{thrower(&calls, kind)};
    function<int(int), 32, 16> fm(std::move(f0));
    function<int(int)> inner{thrower(&calls, kind)};
    function<int(int), 32, 16> fr{relay(&inner)};
    function<int(int), 32, 16>& f = nested ? fr : fm;
    for (int i = 0; i < before; ++i) f(-1);
    int caught = 0, payload = 0;
    try { f(v); }
    catch (int x) { caught = 1; payload = x; }
    catch (error_value const& x) { caught = 2; payload = x.w == 1 ? x.v : -1; }
    catch (error_base const& x) { caught = x.kind(); payload = x.v; }
    catch (...) { caught = 99; }
    j.str("op", "throw"); j.num("kind", kind); j.num("v", v); j.num("before", before); j.num("caught", caught);
    j.num("payload", payload); j.num("held", static_cast<bool>(f)); j.num("calls", calls); j.num("again", f(-1));
  }
  j.num("live", led::used - live0); j.num("err", led::err);
  j.emit();
}
// callables of many sizes and kinds, signatures with many results: what is thrown reaches the caller
static int g_calls, g_kind;
static void maybe(int v) {
  ++g_calls;
  if (v < 0) return;
  if (g_kind == 1) throw v;
  if (g_kind == 2) throw error_value{v, 1};
  error_derived e; e.v = v; throw e;
}
template <int N> struct padded {
  unsigned char pad[N];
  padded() { for (int i = 0; i < N; ++i) pad[i] = static_cast<unsigned char>(i * 3 + 1); }
  void ok() const { for (int i = 0; i < N; ++i) if (pad[i] != static_cast<unsigned char>(i * 3 + 1)) ++led::err; }
};
template <> struct padded<0> { void ok() const {} };
static both g_both(5);
template <typename R> struct made { static R of() { return R(3); } };
template <> struct made<void> { static void of() {} };
template <> struct made<both&> { static both& of() { return g_both; } };
template <> struct made<both&&> { static both&& of() { return static_cast<both&&>(g_both); } };
template <typename R, int N> struct thr_n : padded<N> { R operator()(int v) { this->ok(); maybe(v); return made<R>::of(); } };
template <typename R, int N> struct thr_c : padded<N> { R operator()(int v) const { this->ok(); maybe(v); return made<R>::of(); } };
template <typename R, int N> struct thr_a : padded<N> { R operator()(moveonly m, both&& b, both const& c) const { this->ok(); moveonly k(std::move(m)); maybe(k.v + b.v + c.v); return made<R>::of(); } };
template <typename R> R thr_f(int v) { maybe(v); return made<R>::of(); }
struct thr_m { int d; int mem(int v) { maybe(v); return d; } int cmem(int v) const { maybe(v); return d; } };

template <typename F, typename Call> void thrown(F& f, Call call) {
  for (g_kind = 1; g_kind <= 3; ++g_kind)
    for (int before = 0; before < 2; ++before) {
      jrec j;
      long long live0 = led::used;
      int caught = 0, payload = 0, v = 50 + g_kind + before;
      {
        g_calls = 0;
        for (int i = 0; i < before; ++i) call(f, -1);
        try { call(f, v); }
        catch (int x) { caught = 1; payload = x; }
        catch (error_value const& x) { caught = 2; payload = x.w == 1 ? x.v : -1; }
        catch (error_base const& x) { caught = x.kind(); payload = x.v; }
        catch (...) { caught = 99; }
        j.str("op", "throw"); j.num("kind", g_kind); j.num("v", v); j.num("before", before); j.num("caught", caught);
        j.num("payload", payload); j.num("held", static_cast<bool>(f)); j.num("calls", g_calls);
        call(f, -1);
        j.num("again", g_calls);
      }
      j.num("live", led::used - live0); j.num("err", led::err);
      j.emit();
    }
}
struct call1 { template <typename F> void operator()(F& f, int v) const { f(v); } };
struct call3 { template <typename F> void operator()(F& f, int v) const { both b(v < 0 ? -1 : v - 30), c(10); f(moveonly(v < 0 ? -20 : 20), std::move(b), c); } };
struct callm { thr_m* o; template <typename F> void operator()(F& f, int v) const { f(*o, v); } };
template <typename R, int N> void thrown_sizes() {
  {
    function<R(int), 64> f{thr_n<R, N>()};
    thrown(f, call1());
    function<R(int), 64> g(std::move(f));
    thrown(g, call1());
    thr_n<R, N> c;
    f = std::ref(c);
    thrown(f, call1());
  }
  {
    function<R(int) const, 64> f{thr_c<R, N>()};
    thrown(f, call1());
    function<R(int) const, 64> const& k = f;
    thrown(k, call1());
    function<R(moveonly, both&&, both const&) const, 64> a{thr_a<R, N>()};
    thrown(a, call3());
  }
}
template <typename R> void thrown_result() {
  thrown_sizes<R, 0>(); thrown_sizes<R, 1>(); thrown_sizes<R, 8>(); thrown_sizes<R, 9>(); thrown_sizes<R, 24>(); thrown_sizes<R, 64>();
  function<R(int)> f(&thr_f<R>);
  thrown(f, call1());
  function<R(int) const> g(&thr_f<R>);
  thrown(g, call1());
}
static void thrown_all() {
  thrown_result<void>(); thrown_result<int>(); thrown_result<both>(); thrown_result<moveonly>(); thrown_result<both&>(); thrown_result<both&&>();
  thr_m o{4};
  function<int(thr_m&, int)> f(&thr_m::mem);
  thrown(f, callm{&o});
  function<int(thr_m const&, int) const> g(&thr_m::cmem);
  thrown(g, callm{&o});
}
#endif

template <typename T> void common() {
  arg1<T, val, val, false>(10); arg1<T, val, cref, false>(10); arg1<T, val, rref, false>(10); arg1<T, val, any, false>(10);
  arg1<T, ref, ref, true>(20); arg1<T, ref, cref, true>(20); arg1<T, ref, any, true>(20);
  arg1<T, cref, cref, true>(30); arg1<T, cref, any, true>(30); arg1<T, cref, cref, false>(35); arg1<T, cref, any, false>(35);
  arg1<T, rref, val, false>(40); arg1<T, rref, cref, false>(40); arg1<T, rref, rref, false>(40); arg1<T, rref, any, false>(40);
  res1<T, val, val>(50); res1<T, val, rref>(51); res1<T, ref, ref>(52); res1<T, cref, ref>(53); res1<T, cref, cref>(54);
  res1<T, rref, rref>(55);
  res1<T, voi, voi>(56); res1<T, voi, val>(57); res1<T, voi, ref>(58); res1<T, voi, cref>(59); res1<T, voi, rref>(60);
}

int main() {
  common<both>();
  common<moveonly>();
  arg1<both, val, val, true>(10); arg1<both, val, cref, true>(10); arg1<both, val, rref, true>(10); arg1<both, val, any, true>(10);
  arg1<both, ref, val, true>(20); arg1<both, cref, val, true>(30); arg1<both, cref, val, false>(35);
  res1<both, val, ref>(61); res1<both, val, cref>(62);
  for (int v = 0; v < 8; ++v) {
    { function<double(int)> f([](int x) { return x; }); double d = f(v); conv("int_to_double", v, static_cast<long long>(d)); }
    { function<int(double)> f([](double x) { return x; }); conv("double_to_int", v, f(v + 0.5)); }
    { Derived d; d.p = 99; d.b = v; function<Base*(Derived*)> f([](Derived* x) { return x; }); conv("derived_to_base", v, f(&d)->b); }
    { function<long long(int)> f([](long long x) { return static_cast<int>(x); }); conv("int_to_int64", v, f(v)); }
    { function<int(int, int const&, int&&)> f([](int a, int b, int c) { return a * 100 + b * 10 + c; }); int b = v + 1; conv("args3", v, f(v, b, v + 2)); }
    { function<int(char, short, int, long, long long) const> f([](char a, short b, int c, long d, long long e) { return static_cast<int>(a * 16 + b * 8 + c * 4 + d * 2 + e); });
      conv("args5", v, f(v, v + 1, v + 2, v + 3, v + 4)); }
    { function<int()> f([v] { return v; }); conv("args0", v, f()); }
    { function<int(int)> f; f = sum_to{&f}; conv("recursion", v, f(v)); }
    { function<int(signed char)> f([](int x) { return x; }); conv("char_sign", v, f(static_cast<signed char>(-v))); }
    { function<bool(int)> f([](int x) { return x; }); conv("bool_from_int", v, f(v)); }
  }
#if EXC
  for (int kind = 1; kind <= 3; ++kind)
    for (int before = 0; before < 3; ++before)
      for (int nested = 0; nested < 2; ++nested) throws(kind, before, 100 + kind * 10 + before, nested != 0);
  thrown_all();
#endif
  jrec j; j.str("op", "end"); j.emit();
  return 0;
}
