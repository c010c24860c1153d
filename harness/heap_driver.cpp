// P02: runs a part of the library at a size while every call of the allocator is counted.
// stdin: lines "part size"; stdout: one JSON line each.
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <ostream>
#include <streambuf>
#if PART == 0
#include <embedded/circular_buffer_adapter.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/varint.h>
#elif PART == 1
#include <embedded/constexpr_math.h>
#else
#include <embedded/constexpr_math.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#endif

static long taken, returned;
static bool counting;
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n) { taken += counting; return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { taken += counting; return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { taken += counting; return __libc_realloc(p, n); }
void* aligned_alloc(size_t a, size_t n) { taken += counting; return __libc_memalign(a, n); }
void* memalign(size_t a, size_t n) { taken += counting; return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { taken += counting; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
void free(void* p) { returned += counting && p; __libc_free(p); }
}
template <typename T> T L(T x) { T volatile y = x; return y; }
template <typename T> void use(T const& x) { unsigned char volatile s; for (unsigned char c : reinterpret_cast<unsigned char const(&)[sizeof(T)]>(x)) s = c; (void)s; }
static long sum;

template <template <std::size_t> class F, std::size_t... N> struct sizes {
  static bool run(std::size_t n) {
    bool r[] = {(n == N && (F<N>::run(), true))...};
    for (bool x : r) if (x) return true;
    return false;
  }
};

#if PART == 0
static unsigned char memory[24 << 20];
static long source[300001], target[300001];
struct object {
  long v[3];
  explicit object(long x = 0) : v{x, x + 1, x + 2} { ++sum; }
  object(object const& o) : v{o.v[0], o.v[1], o.v[2]} { ++sum; }
  object(object&& o) noexcept : v{o.v[0], o.v[1], o.v[2]} { o.v[0] = -1; ++sum; }
  object& operator=(object const&) = default;
  ~object() { --sum; }
};
static void ring(std::size_t n) {
  typedef embedded::circular_buffer_adapter<long> R;
  long* m = reinterpret_cast<long*>(memory);
  for (std::size_t at : {std::size_t(0), n / 2, n ? n - 1 : 0}) {
    R r(m, n, at, 0);
    for (std::size_t i = 0; i < n; ++i) if (i % 3) r.push_back(long(i)); else r.push_front(long(i));
    for (auto x : r) sum += x;
    for (auto i = r.rbegin(); i != r.rend(); ++i) sum -= *i;
    for (std::size_t i = 0; i < n; i += 1 + n / 50) sum += r[i] + r.at(i);
    std::sort(r.begin(), r.end());
    std::reverse(r.begin(), r.end());
    R q(std::move(r));
    if (n) { q.pop_front(); q.emplace_back(7l); q.pop_back(); q.emplace_front(8l); sum += q.front() + q.back(); q.pop_front(n / 2); q.pop_back(q.size() / 2); }
    R again(m, m + n, m + q.raw_index(q.begin()) % (n + 1), q.size());
    again.clear();
    R none;
    none = std::move(again);
  }
}
static void objects(std::size_t n) {
  typedef embedded::circular_buffer_adapter<object> R;
  R r(reinterpret_cast<object*>(memory), n, n / 3, 0);
  for (std::size_t i = 0; i < n; ++i) { if (i % 2) r.emplace_back(long(i)); else r.push_front(object(long(i))); }
  for (std::size_t i = 0; i < n; ++i) { object o = r.front(); r.pop_front(); r.push_back(o); }
  if (n) { r.pop_back(n / 2); r.pop_front(r.size() / 2); }
  r.clear();
}
static void bulk(std::size_t n) {
  typedef embedded::circular_buffer_adapter<long> R;
  for (std::size_t at : {std::size_t(0), n / 2, n ? n - 1 : 0}) {
    R r(reinterpret_cast<long*>(memory), n, at, 0);
    r.copy_in_back(source, n);
    r.copy_out_front(target, n);
    r.copy_in_front(source, n);
    r.copy_in(r.begin(), r.end(), source);
    r.copy_out(r.begin(), r.end(), target);
    r.copy_out_back(target, n);
  }
}
template <std::size_t N> struct callable { unsigned char b[N]; int operator()(int x) { return x + b[N - 1]++; } };
static int plain(int x) { return x + 1; }
struct other { int v; int get(int x) const { return v + x; } };
template <std::size_t N> struct wrap {
  static void run() {
    typedef embedded::function<int(int), (N < 16 ? 16 : N)> F;
    callable<N> c = {};
    F f(c);
    sum += f(1);
    F g(std::move(f));
    sum += g(2);
    f = std::move(g);
    g = plain;
    sum += g(1) + f(1);
    std::swap(f, g);
    f = callable<N>{};
    sum += f(3);
    f = nullptr;
    F h;
    h = std::move(g);
    F k(&plain);
    sum += k ? k(2) : 0;
  }
};
template <std::size_t N> struct bound {
  static void run() {
    typedef embedded::function<int(other const&, int) const, (N < 16 ? 16 : N)> F;
    F f(&other::get);
    other o = {3};
    sum += f(o, 2);
    F g(std::move(f));
    g = nullptr;
    other* p = &o;
    embedded::function<int(int), (N < 16 ? 16 : N)> h([p](int x) { return p->get(x); });
    sum += h(1);
  }
};
template <typename T> static void number(T v) {
  using embedded::varint;
  std::uint8_t b[24];
  auto e = varint::encode(v, b, b + sizeof b);
  T w = 0;
  sum += varint::decode(w, b, e) - b + varint::size(v);
  e = varint::encode(v, b);
  varint::encode(v, b, b + 1);
  b[0] |= 0x80;
  varint::decode(w, b, b + 1);
}
static void numbers(std::size_t n) {
  std::uint64_t x = 88172645463325252ull;
  for (std::size_t i = 0; i < n; ++i) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    std::uint64_t v = x >> (i % 64);
    number<std::uint8_t>(v); number<std::int8_t>(v); number<std::uint16_t>(v); number<std::int16_t>(v);
    number<std::uint32_t>(v); number<std::int32_t>(v); number<std::uint64_t>(v); number<std::int64_t>(v);
  }
}
struct latch { void lock() { ++sum; } void unlock() { --sum; } };
static void guard(std::size_t n) {
  latch l;
  embedded::lock_guard<latch> g(l);
  if (n) guard(n - 1);
}
static void mover(std::size_t n) {
  embedded::move_wrapper<object> a(object(3));
  for (std::size_t i = 0; i < n; ++i) { embedded::move_wrapper<object> b(a); embedded::move_wrapper<object> c(std::move(b)); sum += c->v[0] - (*c).v[0]; }
}
static bool run(char const* p, std::size_t n) {
  if (!std::strcmp(p, "ring")) return ring(n), true;
  if (!std::strcmp(p, "objects")) return objects(n), true;
  if (!std::strcmp(p, "bulk")) return bulk(n), true;
  if (!std::strcmp(p, "function")) return sizes<wrap, 1, 7, 8, 16, 33, 64, 256, 1000, 4096>::run(n);
  if (!std::strcmp(p, "members")) return sizes<bound, 8, 16, 64>::run(n);
  if (!std::strcmp(p, "varint")) return numbers(n), true;
  if (!std::strcmp(p, "guard")) return guard(n), true;
  if (!std::strcmp(p, "mover")) return mover(n), true;
  return false;
}
#elif PART == 1
namespace cm = embedded::cmath;
struct lesser { template <typename T> constexpr bool operator()(T const& a, T const& b) const { return a < b; } };
struct odd { constexpr bool operator()(int a) const { return a % 2 != 0; } };
struct half { constexpr int operator()(int a) const { return a / 2; } };
struct make { constexpr int operator()(int i) const { return (i * 37) % 101; } };
template <std::size_t N> struct vec {
  static void run() {
    typedef cm::vector<int, N> V;
    V v = V::create(make());
    int k = L(2);
    V w = k * v;
    use(v.append(w));
    sum += (v == w) + v.count(odd());
    V s = w.sort(lesser());
    V t = s.transform(half());
    V u = k + t;
    V x = u / k;
    V z = -x;
    V full = V::full(k), ones = V::ones(), zeros = V::zeros();
    for (std::size_t i = 0; i < N; ++i) sum += s[i] + t[i] + u[i] + x[i] + z[i] + full[i] + ones[i] + zeros[i];
    sum += prod(x);
    more(v, std::integral_constant<bool, (N > 0)>());
    cm::vector<double, N> d(v);
    cm::vector<double, N> e = exp(d);
    for (std::size_t i = 0; i < N; ++i) sum += e[i] > 1;
  }
  static void more(cm::vector<int, N> const& v, std::true_type) {
    sum += v.argmin(lesser());
    auto e = v.template erase<0, 1>();
    auto s = v.template subvector<0, (N + 1) / 2>();
    auto w = v.swap(0, N - 1);
    sum += e.size() + s[0] + w[0];
  }
  static void more(cm::vector<int, N> const&, std::false_type) {}
};
template <std::size_t N> struct convolved {
  static void run() {
    cm::vector<double, N> a = cm::vector<double, N>::full(L(1.5)), b = cm::vector<double, N>::full(L(2.0));
    auto c = convolve_full(a, b);
    for (std::size_t i = 0; i < c.size(); ++i) sum += c[i] > 3;
  }
};
template <std::size_t N> struct expanded {
  static void run() {
    typedef cm::complex<double> C;
    auto p = poly(cm::vector<C, N>::full(C(L(0.5), L(0.25))));
    for (std::size_t i = 0; i <= N; ++i) sum += p[i].real() > 0;
  }
};
template <std::size_t N> struct complexes {
  static void run() {
    typedef cm::complex<float> C;
    auto v = cm::vector<C, N>::full(C(L(0.5f), L(0.25f)));
    auto r = real(v); auto a = abs(v); auto c = exp(v);
    C z = (v[0] * v[0].conj() + c[0]) / (v[0] - C(1)) / 2.0f;
    sum += (z == c[0]) + (r[0] > a[0]) + (exp(z).norm() > 1);
  }
};
static bool run(char const* p, std::size_t n) {
  if (!std::strcmp(p, "vector")) return sizes<vec, 0, 1, 2, 3, 8, 9, 16, 17, 33, 48>::run(n);
  if (!std::strcmp(p, "conv")) return sizes<convolved, 1, 2, 3, 8, 9, 16, 24>::run(n);
  if (!std::strcmp(p, "poly")) return sizes<expanded, 0, 1, 2, 3, 8, 9, 16, 24>::run(n);
  if (!std::strcmp(p, "complex")) return sizes<complexes, 1, 2, 8, 20>::run(n);
  return false;
}
#else
using namespace embedded::signal;
template <typename I> static void play(I i) {
  I j = i;
  typename I::value_type x(1);
  for (int k = 0; k < 5000; ++k) { sum += i(x) > 0; if (k % 7 == 0) sum += j(x) > 0; x = -x; }
}
#if PART == 2
template <std::size_t N> struct section {
  static void run() {
    iirfilter<double> f(L(1000.0));
    auto d = f.lowpass(butterworth<N>(), L(90.0)).template sos<float>(); play(d.instance());
    auto e = f.highpass(butterworth<N>(), L(90.0)).template sos<double>(sos_gain::distribute); play(e.instance());
  }
};
static bool run(char const* p, std::size_t n) {
  if (!std::strcmp(p, "sos")) return sizes<section, 1, 2, 3, 4, 5, 8, 9, 16, 17, 24>::run(n);
  return false;
}
#elif PART == 3
template <std::size_t N> struct polynomial {
  static void run() {
    iirfilter<double> f(L(1000.0));
    auto d = f.lowpass(butterworth<N>(), L(90.0)).template poly<double>(); play(d.instance());
    std::array<double, N> s{};
    for (int k = 0; k < 100; ++k) sum += d.filter(s, 1.0) > 0;
  }
};
static bool run(char const* p, std::size_t n) {
  if (!std::strcmp(p, "polyform")) return sizes<polynomial, 1, 2, 3, 4, 5, 8, 9, 16, 17, 24>::run(n);
  return false;
}
#elif PART == 4
template <std::size_t N> struct designed {
  static void run() {
    iirfilter<float> f(L(8000.0f));
    auto d = f.lowpass(butterworth<N>(), L(900.0f)); auto e = f.highpass(butterworth<N>(), L(900.0f));
    use(d.template sos<float>()); use(e.template sos<double>()); use(d.template poly<float>()); use(e.template poly<double>());
  }
};
static bool run(char const* p, std::size_t n) {
  if (!std::strcmp(p, "design")) return sizes<designed, 1, 2, 3, 4, 5, 8, 9, 16, 17, 24>::run(n);
  return false;
}
#else
template <std::size_t N> struct cheby {
  static void run() {
    iirfilter<double> f(L(1000.0));
    auto d = f.lowpass(chebyshev1<N>(L(1.0)), L(90.0)).template sos<double>(); play(d.instance());
    auto e = f.highpass(chebyshev2<N>(L(40.0)), L(90.0)).template poly<double>(); play(e.instance());
  }
};
template <std::size_t N> struct delay {
  static void run() {
    iirfilter<double> f(L(1000.0));
    auto d = f.lowpass(bessel<N>(), L(90.0)).template sos<double>(); play(d.instance());
  }
};
static bool run(char const* p, std::size_t n) {
  if (!std::strcmp(p, "chebyshev")) return sizes<cheby, 1, 2, 3, 6, 9>::run(n);
  if (!std::strcmp(p, "bessel")) return sizes<delay, 1, 2, 3, 10, 40>::run(n);
  return false;
}
#endif
#endif

int main() {
  char p[32];
  unsigned long n;
  while (std::scanf("%31s %lu", p, &n) == 2) {
    taken = returned = 0;
    counting = true;
    bool ok = run(p, n);
    counting = false;
    std::printf("{\"p\": \"%s\", \"n\": %lu, \"taken\": %ld, \"returned\": %ld, \"done\": %d}\n", p, n, taken, returned, ok ? 1 : 0);
    std::fflush(stdout);
  }
  void* volatile q = std::malloc(3);                        // the counters count
  counting = true;
  q = std::realloc(q, 300);
  delete[] new int[5];
  std::free(q);
  counting = false;
  return taken >= 1 && returned >= 1 ? 0 : 3;
}
