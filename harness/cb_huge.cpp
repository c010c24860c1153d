// Runs command scripts on circular buffers with more elements than 32 bits can count.  All quantities are multiples of U
// elements, and the log counts in units of U: a unit is its first, a middle and its last element.  It decides nothing.
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <utility>
#include <sys/mman.h>

#include <embedded/circular_buffer_adapter.h>

#include "json_out.h"

using std::size_t;
typedef std::vector<long long> ints;

static const size_t U = size_t(1) << 20;
template <typename T> struct tok {
  static T make(int v) { return T(v); }
  static int get(T const& t) { return static_cast<int>(t); }
};
// in units; -1 if it is no whole number of units
static long long un(long long x) { return x % static_cast<long long>(U) == 0 ? x / static_cast<long long>(U) : -1000000 - x % 1000; }

// maximal runs of values increasing by one (modulo m, if m)
struct runs {
  ints o;
  long long m, last = -99;
  bool over = false;
  explicit runs(long long mod) : m(mod) {}
  void add(long long v) {
    if (over) return;
    if (!o.empty() && v >= 0 && v == (m ? (last + 1) % m : last + 1)) ++o.back();
    else if (o.size() < 40000) { o.push_back(v); o.push_back(1); }
    else over = true;
    last = v;
  }
};
static void put(jrec& j, char const* k, ints const& o) {
  j.key(k);
  j.s += "[";
  for (size_t i = 0; i + 1 < o.size(); i += 2) j.s += (i ? ",[" : "[") + std::to_string(o[i]) + "," + std::to_string(o[i + 1]) + "]";
  j.s += "]";
}

template <typename T> class session {
  typedef embedded::circular_buffer_adapter<T> A;
  static const size_t G = 4096;                       // elements before and after
  void* map = nullptr;
  size_t map_bytes = 0;
  std::vector<int> before;
  T* base = nullptr;
  size_t cap = 0;                                     // units
  A* a = nullptr;
  long long lo = 0, hi = 0;

  static T at(long long x) { return tok<T>::make(static_cast<int>(((x % 251) + 251) % 251)); }
  // a unit whose sampled elements differ counts as -8
  static int unit(T const* p) { int x = tok<T>::get(p[0]); return x == tok<T>::get(p[U / 2]) && x == tok<T>::get(p[U - 1]) ? x : -8; }
  std::vector<int> image() const {
    std::vector<int> v(3 * cap);
    for (size_t i = 0; i < cap; ++i) {
      T const* p = base + i * U;
      v[3 * i] = tok<T>::get(p[0]);
      v[3 * i + 1] = tok<T>::get(p[U / 2]);
      v[3 * i + 2] = tok<T>::get(p[U - 1]);
    }
    return v;
  }
  void begin() { before = image(); }

  void observe(jrec& j) {
    runs w(0);
    std::vector<int> now = image();
    for (size_t i = 0; i < cap; ++i)
      if (now[3 * i] != before[3 * i] || now[3 * i + 1] != before[3 * i + 1] || now[3 * i + 2] != before[3 * i + 2]) w.add(i);
    long long guard = 1;
    for (size_t i = 0; i < G; ++i)
      if (*(base - 1 - i) != tok<T>::make(99) || base[cap * U + i] != tok<T>::make(99)) guard = 0;
    A const& b = *a;
    size_t nn = b.size(), n = un(nn) >= 0 ? nn / U : 0;
    std::ptrdiff_t const S = U;
    j.arr("s", ints{un(nn), b.empty(), b.full(), un(b.capacity()), un(b.remaining())});
    runs c(251), sl(0), t(251), u(251), rv(251);
    if (n <= cap) {
      for (size_t i = 0; i < n; ++i) {
        c.add(tok<T>::get(b[i * U]) == tok<T>::get(b[i * U + U - 1]) ? tok<T>::get(b[i * U]) : -8);
        std::ptrdiff_t d = &b[i * U] - base;
        sl.add(d >= 0 && d / U < cap ? un(d) : -1);
      }
      size_t k = 0;
      for (auto it = b.begin(); it != b.end() && k <= cap; it += S, ++k) t.add(tok<T>::get(*it));
      k = 0;
      for (auto it = b.cbegin(); it < b.cend() && k <= cap; it = it + S, ++k) u.add(tok<T>::get(*it));
      std::vector<int> r;
      for (auto it = b.crbegin(); it != b.crend() && r.size() <= cap; it += S) r.push_back(tok<T>::get(*it));
      for (size_t i = r.size(); i > 0; --i) rv.add(r[i - 1]);
    }
    put(j, "c", c.o);
    put(j, "t", t.o);
    put(j, "u", u.o);
    put(j, "v", rv.o);
    put(j, "sl", sl.o);
    put(j, "w", w.o);
    j.arr("fb", n ? ints{tok<T>::get(b.front()), tok<T>::get(b.back())} : ints{});
    j.num("p", un(b.raw_index(b.begin())));
    j.num("e", un(b.raw_index(b.cend())));
    j.num("g", guard);
    j.key("ra");
    j.s += "[";
    bool first = true;
    if (n <= cap) {
      size_t p = b.raw_index(b.begin()) / U;
      std::vector<size_t> at{0, 1, n / 2, n - 1, n, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 4097, cap - 1 - p, cap - p};
      for (size_t i : at) {
        if (i > n) continue;
        auto it = b.begin() + S * static_cast<std::ptrdiff_t>(i);
        auto jt = b.cend() - S * static_cast<std::ptrdiff_t>(n - i);
        bool same = jt == it && !(it < jt) && it <= jt;
        long long v1 = i < n ? tok<T>::get(*it) : -1, v2 = i < n ? tok<T>::get(b.begin()[S * static_cast<std::ptrdiff_t>(i)]) : -1, v3 = i < n ? tok<T>::get(b.at(U * i)) : -1;
        ints x{static_cast<long long>(i), v1, v2, v3, un(it - b.begin()), un(b.end() - it), un(jt - b.cbegin()), same, un(b.raw_index(it)),
               (b.begin() < it) + 2 * (it < b.end()) + 4 * (b.begin() <= it) + 8 * (it >= b.end())};
        j.s += first ? "[" : ",[";
        first = false;
        for (size_t k = 0; k < x.size(); ++k) j.s += (k ? "," : "") + std::to_string(x[k]);
        j.s += "]";
      }
    }
    j.s += "]";
    j.arr("ct", ints{0, 0, 0});
    j.num("le", 0);
    j.emit();
  }

  void drop() {
    delete a;
    a = nullptr;
    if (map) munmap(map, map_bytes);
    map = nullptr;
  }

  bool fresh(std::vector<std::string> const& w) {
    drop();
    cap = toi(w[2]);
    size_t pos = toi(w[3]), n = toi(w[4]);
    map_bytes = (cap * U + 2 * G) * sizeof(T);
    map = mmap(nullptr, map_bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (map == MAP_FAILED) { map = nullptr; return false; }
    base = static_cast<T*>(map) + G;
    for (size_t i = 0; i < G; ++i) *(base - 1 - i) = base[cap * U + i] = tok<T>::make(99);
    for (size_t i = 0; i < cap * 3; ++i) base[i / 3 * U + (i % 3 == 0 ? 0 : i % 3 == 1 ? U / 2 : U - 1)] = tok<T>::make(200);
    lo = 0;
    hi = n;
    for (size_t i = 0; i < n; ++i) { T* p = base + (pos + i) % cap * U; p[0] = p[U / 2] = p[U - 1] = at(i); }
    a = toi(w[1]) ? new A(base, base + cap * U, base + pos * U, n * U) : new A(base, cap * U, pos * U, n * U);
    begin();
    jrec j;
    j.str("op", "new");
    j.num("cap", cap);
    j.num("pos", pos);
    j.num("k", n);
    j.num("i", 0);
    j.str("y", "triv");
    put(j, "r", ints{});
    observe(j);
    return true;
  }

  void op(std::vector<std::string> const& w) {
    std::string const& o = w[0];
    size_t k = toi(w[1]), i = w.size() > 2 ? toi(w[2]) : 0;
    jrec j;
    j.str("op", o);
    j.num("k", k);
    j.num("i", i);
    ints res;
    begin();
    if (o == "pushb") for (size_t x = 0; x < k; ++x) { for (size_t y = 0; y < U; ++y) { if (y % 2) a->push_back(at(hi)); else a->emplace_back(at(hi)); } ++hi; }
    else if (o == "pushf") for (size_t x = 0; x < k; ++x) { --lo; for (size_t y = 0; y < U; ++y) { if (y % 2) a->push_front(at(lo)); else a->emplace_front(at(lo)); } }
    else if (o == "popb") for (size_t x = 0; x < k; ++x) { for (size_t y = 0; y < U; ++y) a->pop_back(); --hi; }
    else if (o == "popf") for (size_t x = 0; x < k; ++x) { for (size_t y = 0; y < U; ++y) a->pop_front(); ++lo; }
    else if (o == "popbn") a->pop_back(k * U), hi -= k;
    else if (o == "popfn") a->pop_front(k * U), lo += k;
    else if (o == "clear") { lo = hi; a->clear(); }
    else if (o == "reattach") {
      A* b = k ? new A(base, cap * U, a->raw_index(a->begin()), a->size()) : new A(std::move(*a));
      delete a;
      a = b;
    } else {
      std::vector<T> buf((k + 2) * U, tok<T>::make(111));
      T* d = buf.data() + U;
      long long first = o == "cinb" ? hi : o == "cinf" ? lo - static_cast<long long>(k) : o == "over" ? lo + static_cast<long long>(i) + 100 : o == "unover" ? lo + static_cast<long long>(i) : -1;
      bool in = o == "cinb" || o == "cinf" || o == "over" || o == "unover";
      if (in) for (size_t x = 0; x < k * U; ++x) d[x] = at(first + static_cast<long long>(x / U));
      begin();
      if (o == "cinb") a->copy_in_back(d, k * U), hi += k;
      else if (o == "cinf") a->copy_in_front(d, k * U), lo -= k;
      else if (o == "coutb") a->copy_out_back(d, k * U), hi -= k;
      else if (o == "coutf") a->copy_out_front(d, k * U), lo += k;
      else if (o == "over" || o == "unover") a->copy_in(a->begin() + i * U, a->begin() + (i + k) * U, static_cast<T const*>(d));
      else if (o == "outr") a->copy_out(a->cbegin() + i * U, a->cbegin() + (i + k) * U, d);
      else std::abort();
      runs r(251);
      for (size_t x = 0; x < k + 2; ++x) {
        int v = unit(buf.data() + x * U);
        if ((x >= 1 && x < k + 1) || v != 111) r.add(v);
      }
      res = in ? ints{} : r.o;
    }
    put(j, "r", res);
    observe(j);
  }

 public:
  ~session() { drop(); }
  int run() {
    std::string line;
    while (read_line(line)) {
      std::vector<std::string> w = words(line.c_str());
      if (w.empty()) continue;
      if (w[0] != "new") { op(w); continue; }
      if (!fresh(w)) {                                 // no such amount of address space here
        jrec j;
        j.str("op", "skip");
        j.emit();
        return 0;
      }
    }
    return 0;
  }
};

int main(int, char** argv) {
  std::string t = argv[1];
  if (t == "u8") { session<std::uint8_t> s; return s.run(); }
  if (t == "i32") { session<int> s; return s.run(); }
  return 3;
}
