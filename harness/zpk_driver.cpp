// Reads zero/pole/gain descriptions and prints the coefficients of the filter forms.
//   ID N TYPES FORM DEN K z.. p..      TYPES: design type and sample type; FORM: 0 poly, 1 sos, 2 sos distribute, 3 sos default
#include "sig.h"

template <typename T, std::size_t N, std::size_t... I>
vector<complex<T>, N> mk(std::vector<long> const& v, std::size_t o, long den, embedded::index_sequence<I...>) {
  return vector<complex<T>, N>{complex<T>(static_cast<T>(v[o + 2 * I]) / static_cast<T>(den), static_cast<T>(v[o + 2 * I + 1]) / static_cast<T>(den))...};
}
template <typename T, typename F, std::size_t N> void go(int id, int form, long den, long k, std::vector<long> const& v) {
  typedef typename es::iirfilter<T>::template design<N> D;
  D const d(typename D::zpk_value(mk<T, N>(v, 0, den, embedded::make_index_sequence<N>{}), mk<T, N>(v, 2 * N, den, embedded::make_index_sequence<N>{}), static_cast<T>(k)));
  if (form == 0) show(id, "rt", d.template poly<F>());
  else if (form == 1) show(id, "rt", d.template sos<F>(es::sos_gain::first_section));
  else if (form == 2) show(id, "rt", d.template sos<F>(es::sos_gain::distribute));
  else show(id, "rt", d.template sos<F>());
}
template <typename T, typename F> void sel(int id, int n, int form, long den, long k, std::vector<long> const& v) {
  switch (n) {
    case 1: return go<T, F, 1>(id, form, den, k, v);
    case 2: return go<T, F, 2>(id, form, den, k, v);
    case 3: return go<T, F, 3>(id, form, den, k, v);
    case 4: return go<T, F, 4>(id, form, den, k, v);
    case 5: return go<T, F, 5>(id, form, den, k, v);
    case 6: return go<T, F, 6>(id, form, den, k, v);
    case 7: return go<T, F, 7>(id, form, den, k, v);
    case 8: return go<T, F, 8>(id, form, den, k, v);
    case 9: return go<T, F, 9>(id, form, den, k, v);
    case 10: return go<T, F, 10>(id, form, den, k, v);
  }
}
// larger orders, for one pair of types
void large(int id, int n, int form, long den, long k, std::vector<long> const& v) {
  switch (n) {
    case 11: return go<double, double, 11>(id, form, den, k, v);
    case 12: return go<double, double, 12>(id, form, den, k, v);
    case 15: return go<double, double, 15>(id, form, den, k, v);
    case 16: return go<double, double, 16>(id, form, den, k, v);
    case 19: return go<double, double, 19>(id, form, den, k, v);
    case 22: return go<double, double, 22>(id, form, den, k, v);
    case 27: return go<double, double, 27>(id, form, den, k, v);
    case 34: return go<double, double, 34>(id, form, den, k, v);
  }
}
int main() {
  int id, n, ty, form;
  long den, k;
  while (std::scanf("%d %d %d %d %ld %ld", &id, &n, &ty, &form, &den, &k) == 6) {
    std::vector<long> v(4 * n);
    for (auto& x : v) if (std::scanf("%ld", &x) != 1) return 3;
    if (n > 10) { large(id, n, form, den, k, v); continue; }
    switch (ty) {
      case 0: sel<double, double>(id, n, form, den, k, v); break;
      case 1: sel<double, float>(id, n, form, den, k, v); break;
      case 2: sel<ld, ld>(id, n, form, den, k, v); break;
      case 3: sel<float, float>(id, n, form, den, k, v); break;
    }
  }
}
