// Helpers of the generated programs that evaluate vector, polynomial and complex expressions,
// at compile time and at run time, and print the results.
#pragma once
#include <cmath>
#include <cstdio>
#include <limits>
#include <embedded/constexpr_math/convolve.h>
#include <embedded/constexpr_math/poly.h>
#include <embedded/constexpr_math/vector.h>
#ifdef WITH_COMPLEX
#include <embedded/constexpr_math/complex.h>
#endif

namespace cm = embedded::cmath;
using cm::vector;
typedef long long ll;
typedef long double ld;
typedef unsigned char uc;

// run time values the compiler cannot see through
template <typename T, typename U>
T L(U x) {
  volatile T y = static_cast<T>(x);
  return y;
}

template <typename T> struct aff {       // v x + i
  T v, i;
  constexpr aff(T a, T b) : v(a), i(b) {}
  constexpr T operator()(T const& x) const { return static_cast<T>(v * x + i); }
};
template <typename T> struct gen {       // v + i k
  T v, i;
  constexpr gen(T a, T b) : v(a), i(b) {}
  constexpr T operator()(std::size_t k) const { return static_cast<T>(v + i * static_cast<T>(k)); }
};
template <typename T> struct affll {
  ll v, i;
  constexpr affll(ll a, ll b) : v(a), i(b) {}
  constexpr ll operator()(T const& x) const { return v * static_cast<ll>(x) + i; }
};
struct plus_f { template <typename T> constexpr T operator()(T const& a, T const& b) const { return a + b; } };
struct mul_f { template <typename T> constexpr T operator()(T const& a, T const& b) const { return a * b; } };
struct max_f { template <typename T> constexpr T operator()(T const& a, T const& b) const { return a > b ? a : b; } };
template <typename T> constexpr T mag(T x) { return x < 0 ? -x : x; }
struct lt_p { template <typename T> constexpr bool operator()(T const& a, T const& b) const { return a < b; } };
struct gt_p { template <typename T> constexpr bool operator()(T const& a, T const& b) const { return a > b; } };
struct abs_p { template <typename T> constexpr bool operator()(T const& a, T const& b) const { return mag(a) < mag(b); } };
struct mod_p { template <typename T> constexpr bool operator()(T const& a, T const& b) const {
  return ((static_cast<int>(a) % 10) + 10) % 10 < ((static_cast<int>(b) % 10) + 10) % 10; } };
struct neg_c { template <typename T> constexpr bool operator()(T const& a) const { return a < 0; } };
struct even_c { template <typename T> constexpr bool operator()(T const& a) const { return static_cast<ll>(a) % 2 == 0; } };
struct all_c { template <typename T> constexpr bool operator()(T const&) const { return true; } };
struct none_c { template <typename T> constexpr bool operator()(T const&) const { return false; } };
template <typename T> struct gtv_c {
  T v;
  constexpr gtv_c(T x) : v(x) {}
  constexpr bool operator()(T const& a) const { return a > v; }
};

// ---- output: every number must be a whole one
inline void put(double x) {
  if (x == std::floor(x) && std::fabs(x) < 2e9) std::printf("%.0f", x == 0 ? 0.0 : x);
  else std::printf("2000000011");
}
inline void put(float x) { put(static_cast<double>(x)); }
inline void put(long double x) { put(static_cast<double>(x)); if (static_cast<long double>(static_cast<double>(x)) != x) std::printf("1"); }
inline void put(int x) { std::printf("%d", x); }
inline void put(ll x) { std::printf("%lld", x); }
inline void put(uc x) { std::printf("%d", static_cast<int>(x)); }
inline void put(bool x) { std::printf("%d", x ? 1 : 0); }
inline void put(std::size_t x) { std::printf("%lld", static_cast<ll>(x)); }
template <typename T, std::size_t N> void list(vector<T, N> const& v);
#ifdef WITH_COMPLEX
template <typename T> void put(cm::complex<T> const& z) {
  std::printf("[");
  put(z.real());
  std::printf(",");
  put(z.imag());
  std::printf("]");
}
#endif
template <typename T> void list(T const& x) { put(x); }
template <typename T, std::size_t N> void list(vector<T, N> const& v) {
  for (std::size_t i = 0; i < N; ++i) {
    if (i) std::printf(",");
    put(v[i]);
  }
}
template <typename T> void out(int id, const char* mode, T const& r) {
  std::printf("{\"id\":%d,\"m\":\"%s\",\"r\":[", id, mode);
  list(r);
  std::printf("]}\n");
}

#ifdef WITH_COMPLEX
using cm::complex;
// a number by a power of two, exactly, at compile time too
constexpr ld p2(int e) {
  return e >= 64 ? 18446744073709551616.0L * p2(e - 64) : e <= -64 ? p2(e + 64) / 18446744073709551616.0L
       : e == 0 ? 1.0L : e > 0 ? 2.0L * p2(e - 1) : 0.5L * p2(e + 1);
}
template <typename T> constexpr T sc(T x, int e) { return static_cast<T>(x * p2(e)); }
template <typename T> constexpr complex<T> sc(complex<T> const& z, int e) { return complex<T>(sc(z.real(), e), sc(z.imag(), e)); }
// nearest whole numbers of k times the value, when that is close
template <typename T> double whole(T x, ld k, ld tol) {
  ld y = static_cast<ld>(x) * k, n = std::floor(y + 0.5L);
  return std::fabs(y - n) <= tol ? static_cast<double>(n) : 2000000011.0;
}
template <typename T> complex<double> whole(complex<T> const& z, ld k, ld tol) {
  return complex<double>(whole(z.real(), k, tol), whole(z.imag(), k, tol));
}
// a magnitude: hundredfold rounded, and itself when whole (else -1)
template <typename T> vector<double, 2> magnitude(T x) {
  return vector<double, 2>{std::floor(static_cast<double>(x) * 100 + 0.5), x == std::floor(x) ? static_cast<double>(x) : -1.0};
}
#endif
