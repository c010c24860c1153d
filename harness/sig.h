// Helpers of the generated programs that exercise filters and filter designs.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <array>
#include <memory>
#include <string>
#include <vector>
#include <embedded/signal/filter.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/bessel.h>

namespace es = embedded::signal;
namespace cm = embedded::cmath;
using cm::complex;
using cm::vector;
typedef long double ld;

template <typename T, typename U>
T L(U x) {
  volatile T y = static_cast<T>(x);
  return y;
}

// residues modulo a prime: an exact sample type
struct Zp {
  static constexpr long P = 46337;
  long v;
  constexpr Zp() : v(0) {}
  constexpr Zp(double d) : v(((static_cast<long>(d) % P) + P) % P) {}
  static constexpr Zp of(long x) { return Zp(static_cast<double>(((x % P) + P) % P)); }
  friend constexpr Zp operator+(Zp const& a, Zp const& b) { return of(a.v + b.v); }
  friend constexpr Zp operator-(Zp const& a, Zp const& b) { return of(a.v - b.v); }
  friend constexpr Zp operator*(Zp const& a, Zp const& b) { return of(a.v * b.v); }
  friend constexpr Zp operator-(Zp const& a) { return of(-a.v); }
  Zp& operator+=(Zp const& b) { return *this = *this + b; }
  Zp& operator-=(Zp const& b) { return *this = *this - b; }
  Zp& operator*=(Zp const& b) { return *this = *this * b; }
  friend constexpr bool operator==(Zp const& a, Zp const& b) { return a.v == b.v; }
  friend constexpr bool operator!=(Zp const& a, Zp const& b) { return a.v != b.v; }
};

inline void num(std::string& s, Zp const& x) { s += std::to_string(x.v); }
inline void num(std::string& s, ld x) {          // exact, as a string; the reader converts
  char b[80];
  if (x != x || x - x != 0) std::snprintf(b, sizeof b, "\"nan\"");
  else std::snprintf(b, sizeof b, "\"%La\"", x);
  s += b;
}
template <typename T, std::size_t N> void nums(std::string& s, vector<T, N> const& v) {
  s += "[";
  for (std::size_t i = 0; i < N; ++i) { if (i) s += ","; num(s, v[i]); }
  s += "]";
}
template <typename T, std::size_t N> void cnums(std::string& s, vector<complex<T>, N> const& v) {
  s += "[";
  for (std::size_t i = 0; i < N; ++i) { if (i) s += ","; s += "["; num(s, v[i].real()); s += ","; num(s, v[i].imag()); s += "]"; }
  s += "]";
}
// the published coefficients: a list of [b, a]
template <typename F, std::size_t N> std::string coefs(es::sos_design<F, N> const& d) {
  std::string s = "[";
  for (std::size_t i = 0; i < d.size(); ++i) {
    if (i) s += ",";
    s += "["; nums(s, d.sos()[i].b()); s += ","; nums(s, d.sos()[i].a()); s += "]";
  }
  return s + "]";
}
template <typename F, std::size_t N> std::string coefs(es::poly_design<F, N> const& d) {
  std::string s = "[[";
  nums(s, d.b()); s += ","; nums(s, d.a());
  return s + "]]";
}
template <typename F> std::string coefs(es::sos_section<F> const& d) {
  std::string s = "[[";
  nums(s, d.b()); s += ","; nums(s, d.a());
  return s + "]]";
}
template <typename D> void show(int id, char const* how, D const& d) {
  std::printf("{\"id\":%d,\"how\":\"%s\",\"order\":%d,\"c\":%s}\n", id, how, (int)D::order(), coefs(d).c_str());
}
template <typename Z> void showzpk(int id, char const* how, Z const& z) {
  std::string s;
  cnums(s, z.zeros()); s += ",\"p\":"; cnums(s, z.poles()); s += ",\"k\":"; num(s, z.gain());
  std::printf("{\"id\":%d,\"how\":\"%s\",\"z\":%s}\n", id, how, s.c_str());
}

// ---- running filters
struct Any {
  int sc = 0;                                          // samples are multiples of 2^sc
  virtual ~Any() {}
  // instances come to life in memory that was used before
  static void* operator new(std::size_t n) { void* p = ::operator new(n); std::memset(p, 0xC5, n); return p; }
  static void operator delete(void* p) { ::operator delete(p); }
  virtual std::string feed(long x) = 0;
  virtual Any* clone() const = 0;
  virtual void assign(Any const& o) = 0;
};
template <typename F> std::string step(F y) { std::string s; num(s, y); return s; }
inline Zp sample(Zp*, long x, int) { return Zp::of(x); }
template <typename F> F sample(F*, long x, int sc) { return std::ldexp(static_cast<F>(x), sc); }
inline Zp unscale(Zp const& y, int) { return y; }
template <typename F> F unscale(F const& y, int sc) { return sc < -500 ? std::ldexp(std::ldexp(y, 500), -sc - 500) : std::ldexp(y, -sc); }

template <typename I> struct Inst : Any {
  typedef typename I::value_type F;
  I i;
  template <typename D> explicit Inst(D const& d) : i(d.instance()) {}
  template <typename D> explicit Inst(D const* d) : i(d) {}
  Inst(Inst const&) = default;
  std::string feed(long x) override { return step(unscale(i(sample((F*)0, x, sc)), sc)); }
  Any* clone() const override { return new Inst(*this); }
  void assign(Any const& o) override { i = static_cast<Inst const&>(o).i; sc = o.sc; }
};
// the filter members called directly, with a state kept by the caller
template <typename F, std::size_t N> struct PolyDirect : Any {
  es::poly_design<F, N> const* d;
  std::array<F, N> st{};
  explicit PolyDirect(es::poly_design<F, N> const* x) : d(x) {}
  std::string feed(long x) override { return step(unscale(d->filter(st, sample((F*)0, x, sc)), sc)); }
  Any* clone() const override { return new PolyDirect(*this); }
  void assign(Any const& o) override { *this = static_cast<PolyDirect const&>(o); }
};
template <typename F> struct SectionDirect : Any {
  es::sos_section<F> const* d;
  typename es::sos_section<F>::state_type st{};
  explicit SectionDirect(es::sos_section<F> const* x) : d(x) {}
  std::string feed(long x) override { return step(unscale(d->filter(st, sample((F*)0, x, sc)), sc)); }
  Any* clone() const override { return new SectionDirect(*this); }
  void assign(Any const& o) override { *this = static_cast<SectionDirect const&>(o); }
};

struct AnyDesign {
  virtual ~AnyDesign() {}
  virtual Any* make(int kind) const = 0;
  virtual std::string dump() const = 0;
};
template <typename D> struct Des;
template <typename F, std::size_t N> struct Des<es::sos_design<F, N>> : AnyDesign {
  es::sos_design<F, N> const d;
  Des(es::sos_design<F, N> const& x) : d(x) {}
  Any* make(int kind) const override {
    if (kind == 1) return new Inst<es::sos_instance<F, N>>(&d);
    return new Inst<es::sos_instance<F, N>>(d);
  }
  std::string dump() const override { return coefs(d); }
};
template <typename F, std::size_t N> struct Des<es::poly_design<F, N>> : AnyDesign {
  es::poly_design<F, N> const d;
  Des(es::poly_design<F, N> const& x) : d(x) {}
  Any* make(int kind) const override {
    if (kind == 1) return new PolyDirect<F, N>(&d);
    if (kind == 2) return new Inst<es::poly_instance<F, N>>(&d);
    return new Inst<es::poly_instance<F, N>>(d);
  }
  std::string dump() const override { return coefs(d); }
};
template <typename F> struct Des<es::sos_section<F>> : AnyDesign {
  es::sos_section<F> const d;
  Des(es::sos_section<F> const& x) : d(x) {}
  Any* make(int) const override { return new SectionDirect<F>(&d); }
  std::string dump() const override { return coefs(d); }
};
template <typename D> AnyDesign* des(D const& d) { return new Des<D>(d); }

// commands on stdin: d DESIGN | n INST DESIGN KIND SCALE | c INST FROM (copy) | a INST FROM (assign) | f INST X | x INST (destroy)
inline int run_filters(std::vector<AnyDesign*> const& ds) {
  std::vector<std::unique_ptr<Any>> in(64);
  char op;
  long a, b;
  int k;
  while (std::scanf(" %c", &op) == 1) {
    if (op == 'd') {
      if (std::scanf("%ld", &a) != 1) return 3;
      std::printf("{\"op\":\"design\",\"d\":%ld,\"c\":%s}\n", a, ds[a]->dump().c_str());
    } else if (op == 'n') {
      int sc;
      if (std::scanf("%ld %ld %d %d", &a, &b, &k, &sc) != 4) return 3;
      in[a].reset(ds[b]->make(k));
      in[a]->sc = sc;
      std::printf("{\"op\":\"new\",\"i\":%ld,\"d\":%ld}\n", a, b);
    } else if (op == 'c' || op == 'a') {
      if (std::scanf("%ld %ld", &a, &b) != 2) return 3;
      if (op == 'c') in[a].reset(in[b]->clone());
      else in[a]->assign(*in[b]);
      std::printf("{\"op\":\"copy\",\"i\":%ld,\"j\":%ld}\n", a, b);
    } else if (op == 'f') {
      if (std::scanf("%ld %ld", &a, &b) != 2) return 3;
      std::printf("{\"op\":\"feed\",\"i\":%ld,\"x\":%ld,\"y\":%s}\n", a, b, in[a]->feed(b).c_str());
    } else if (op == 'x') {
      if (std::scanf("%ld", &a) != 1) return 3;
      in[a].reset();
    }
  }
  return 0;
}
