// Prototypes and designs of the orders NLO..NHI, with design arithmetic DT and coefficient type CT.
//   p ID N FAM RIPPLE                                   prototype
//   g ID N FAM RIPPLE KIND FORM FS P Q                  design; cut-off f with tan(pi f/fs) = P/Q
//   i ID N M KIND FORM FS P Q K z.. p..                 design from a prototype with Gaussian integer roots (if IMAGES)
#include "sig.h"
#ifndef DT
#define DT double
#define CT double
#define NLO 1
#define NHI 4
#define IMAGES 1
#endif
#ifndef BESSEL_MAX
#define BESSEL_MAX 100
#endif
#ifndef PROTO_ONLY
#define PROTO_ONLY 0
#endif

static DT cutoff(ld fs, long p, long q) { return static_cast<DT>(fs * std::atan(static_cast<ld>(p) / q) / 3.14159265358979323846264338327950288L); }

template <typename D> void forms(int id, int form, D const& d) {
  if (form == 0) show(id, "rt", d.template poly<CT>());
  else if (form == 1) show(id, "rt", d.template sos<CT>());
  else show(id, "rt", d.template sos<CT>(es::sos_gain::distribute));
}
template <typename C> void design(int id, C const& c, int kind, int form, ld fs, long p, long q) {
  es::iirfilter<DT> const f(static_cast<DT>(fs));
  if (kind == 0) forms(id, form, f.lowpass(c, cutoff(fs, p, q)));
  else forms(id, form, f.highpass(c, cutoff(fs, p, q)));
}
#if IMAGES
template <typename T, std::size_t N, std::size_t... I>
vector<complex<T>, N> mk(long const* v, embedded::index_sequence<I...>) {
  return vector<complex<T>, N>{complex<T>(static_cast<T>(v[2 * I]), static_cast<T>(v[2 * I + 1]))...};
}
template <std::size_t M, std::size_t N> struct custom {
  long const* z;
  long const* p;
  long k;
  static constexpr std::size_t order() { return N; }
  template <typename T> struct specification {
    custom const* c;
    es::detail::zpk_value<M, N, T> zpk() const {
      return es::detail::zpk_value<M, N, T>(mk<T, M>(c->z, embedded::make_index_sequence<M>{}),
                                            mk<T, N>(c->p, embedded::make_index_sequence<N>{}), static_cast<T>(c->k));
    }
  };
  template <typename T> specification<T> spec() const { return specification<T>{this}; }
};
template <std::size_t M, std::size_t N> struct images {
  static void go(int id, std::size_t m, int kind, int form, ld fs, long p, long q, long k, long const* v) {
    if (m == M) design(id, custom<M, N>{v, v + 2 * M, k}, kind, form, fs, p, q);
    else images<M - 1, N>::go(id, m, kind, form, fs, p, q, k, v);
  }
};
template <std::size_t N> struct images<0, N> {
  static void go(int id, std::size_t, int kind, int form, ld fs, long p, long q, long k, long const* v) {
    design(id, custom<0, N>{v, v, k}, kind, form, fs, p, q);
  }
};
#endif
template <std::size_t N, bool B = (N <= BESSEL_MAX)> struct bes {
  static void proto(int id) { showzpk(id, "rt", es::bessel<N>().template spec<DT>().zpk()); }
  static void des(int id, int kind, int form, ld fs, long p, long q) { design(id, es::bessel<N>(), kind, form, fs, p, q); }
};
template <std::size_t N> struct bes<N, false> {
  static void proto(int) {}
  static void des(int, int, int, ld, long, long) {}
};

template <std::size_t N, bool Stop = (N > NHI)> struct orders {
  static void proto(std::size_t n, int id, int fam, double r) {
    if (n != N) return orders<N + 1>::proto(n, id, fam, r);
    if (fam == 3) bes<N>::proto(id);
#if PROTO_ONLY < 2
    else if (fam == 0) showzpk(id, "rt", es::butterworth<N>().template spec<DT>().zpk());
    else if (fam == 1) showzpk(id, "rt", es::chebyshev1<N>(r).template spec<DT>().zpk());
    else if (fam == 2) showzpk(id, "rt", es::chebyshev2<N>(r).template spec<DT>().zpk());
#if OWN_RIPPLE      // the ripple in the type of the calculation, not in double
    else if (fam == 4) showzpk(id, "rt", es::chebyshev1<N, DT>(DT(r)).template spec<DT>().zpk());
    else if (fam == 5) showzpk(id, "rt", es::chebyshev2<N, DT>(DT(r)).template spec<DT>().zpk());
#endif
#endif
  }
#if !PROTO_ONLY
  static void des(std::size_t n, int id, int fam, double r, int kind, int form, ld fs, long p, long q) {
    if (n != N) return orders<N + 1>::des(n, id, fam, r, kind, form, fs, p, q);
    if (fam == 0) design(id, es::butterworth<N>(), kind, form, fs, p, q);
    else if (fam == 1) design(id, es::chebyshev1<N>(r), kind, form, fs, p, q);
    else if (fam == 2) design(id, es::chebyshev2<N>(r), kind, form, fs, p, q);
#if OWN_RIPPLE
    else if (fam == 4) design(id, es::chebyshev1<N, DT>(DT(r)), kind, form, fs, p, q);
    else if (fam == 5) design(id, es::chebyshev2<N, DT>(DT(r)), kind, form, fs, p, q);
#endif
    else bes<N>::des(id, kind, form, fs, p, q);
  }
#endif
#if IMAGES
  static void img(std::size_t n, int id, std::size_t m, int kind, int form, ld fs, long p, long q, long k, long const* v) {
    if (n != N) return orders<N + 1>::img(n, id, m, kind, form, fs, p, q, k, v);
    images<N, N>::go(id, m, kind, form, fs, p, q, k, v);
  }
#endif
};
template <std::size_t N> struct orders<N, true> {
  static void proto(std::size_t, int, int, double) {}
  static void des(std::size_t, int, int, double, int, int, ld, long, long) {}
  static void img(std::size_t, int, std::size_t, int, int, ld, long, long, long, long const*) {}
};

int main() {
  char op;
  int id, fam, kind, form;
  long n, m, p, q, k;
  double r;
  ld fs;
  while (std::scanf(" %c %d %ld", &op, &id, &n) == 3) {
    if (op == 'p') {
      if (std::scanf("%d %lf", &fam, &r) != 2) return 3;
      orders<NLO>::proto(n, id, fam, r);
    }
#if !PROTO_ONLY
    if (op == 'g') {
      if (std::scanf("%d %lf %d %d %Lf %ld %ld", &fam, &r, &kind, &form, &fs, &p, &q) != 7) return 3;
      orders<NLO>::des(n, id, fam, r, kind, form, fs, p, q);
    }
#endif
#if IMAGES
    if (op == 'i') {
      if (std::scanf("%ld %d %d %Lf %ld %ld %ld", &m, &kind, &form, &fs, &p, &q, &k) != 7) return 3;
      std::vector<long> v(2 * (n + m));
      for (auto& x : v) if (std::scanf("%ld", &x) != 1) return 3;
      orders<NLO>::img(n, id, m, kind, form, fs, p, q, k, v.data());
    }
#endif
    std::fflush(stdout);
  }
}
