// Runs command scripts on large circular buffers; logs contents and slots as runs.  It decides nothing.
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <utility>

#include <embedded/circular_buffer_adapter.h>

#include "json_out.h"

using std::size_t;
typedef std::vector<long long> ints;

static long long n_ctor = 0, n_dtor = 0, n_assign = 0, n_err = 0;
struct pod12 { unsigned char b[12]; };
struct tracked {
  int v;
  unsigned magic;
  explicit tracked(int x) : v(x), magic(0x600d) { ++n_ctor; }
  tracked(tracked const& o) : v(o.v), magic(0x600d) { if (o.magic != 0x600d) ++n_err; ++n_ctor; }
  tracked& operator=(tracked const& o) { if (magic != 0x600d || o.magic != 0x600d) ++n_err; v = o.v; ++n_assign; return *this; }
  ~tracked() { if (magic != 0x600d) ++n_err; magic = 0xdead; v = -1; ++n_dtor; }
};
template <typename T> struct tok {
  static T make(int v) { return T(v); }
  static int get(T const& t) { return static_cast<int>(t); }
};
template <> struct tok<pod12> {
  static pod12 make(int v) { pod12 p; for (int i = 0; i < 12; ++i) p.b[i] = static_cast<unsigned char>((v + i) % 251); return p; }
  static int get(pod12 const& p) { for (int i = 0; i < 12; ++i) if (p.b[i] != (p.b[0] + i) % 251) return -5; return p.b[0]; }
};
template <> struct tok<tracked> {
  static tracked make(int v) { return tracked(v); }
  static int get(tracked const& t) { return t.magic == 0x600d ? t.v : -7; }
};

// maximal runs of values increasing by one (modulo m, if m)
struct runs {
  ints o;
  long long m, last = -99;
  bool over = false;
  explicit runs(long long mod) : m(mod) {}
  void add(long long v) {
    if (over) return;
    if (!o.empty() && v >= 0 && v == (m ? (last + 1) % m : last + 1)) ++o.back();
    else if (o.size() < 40000) { o.push_back(v); o.push_back(1); }
    else over = true;
    last = v;
  }
};
static void put(jrec& j, char const* k, ints const& o) {
  j.key(k);
  j.s += "[";
  for (size_t i = 0; i + 1 < o.size(); i += 2) j.s += (i ? ",[" : "[") + std::to_string(o[i]) + "," + std::to_string(o[i + 1]) + "]";
  j.s += "]";
}

template <typename T> class session {
  typedef embedded::circular_buffer_adapter<T> A;
  static constexpr bool triv = std::is_trivial<T>::value;
  static constexpr size_t G = 4;
  std::vector<unsigned char> mem, before;
  T* base = nullptr;
  size_t cap = 0;
  A* a = nullptr;
  long long lo = 0, hi = 0, c0 = 0, d0 = 0, a0 = 0;

  static T at(long long x) { return tok<T>::make(static_cast<int>(((x % 251) + 251) % 251)); }
  unsigned char* zone() { return reinterpret_cast<unsigned char*>(base - G); }
  size_t bytes() const { return (cap + 2 * G) * sizeof(T); }
  void begin() { before.assign(zone(), zone() + bytes()); c0 = n_ctor; d0 = n_dtor; a0 = n_assign; }

  void observe(jrec& j) {
    ints ct{n_ctor - c0, n_dtor - d0, n_assign - a0};
    runs w(0);
    for (size_t i = 0; i < cap; ++i)
      if (std::memcmp(base + i, before.data() + (i + G) * sizeof(T), sizeof(T)) != 0) w.add(i);
    long long guard = 1;
    for (size_t i = 0; i < G * sizeof(T); ++i)
      if (zone()[i] != 0xA5 || zone()[(G + cap) * sizeof(T) + i] != 0xA5) guard = 0;
    A const& b = *a;
    size_t n = b.size();
    j.arr("s", ints{static_cast<long long>(n), b.empty(), b.full(), static_cast<long long>(b.capacity()), static_cast<long long>(b.remaining())});
    runs c(251), sl(0), t(251), u(251), rv(251);
    if (n <= cap) {
      for (size_t i = 0; i < n; ++i) {
        c.add(tok<T>::get(b[i]));
        std::ptrdiff_t d = reinterpret_cast<unsigned char*>(&b[i]) - reinterpret_cast<unsigned char*>(base);
        sl.add(d >= 0 && d % static_cast<std::ptrdiff_t>(sizeof(T)) == 0 && d / sizeof(T) < cap ? d / static_cast<std::ptrdiff_t>(sizeof(T)) : -1);
      }
      size_t k = 0;
      for (auto it = b.begin(); it != b.end() && k <= cap; ++it, ++k) t.add(tok<T>::get(*it));
      k = 0;
      for (auto it = b.cbegin(); it < b.cend() && k <= cap; it++, ++k) u.add(tok<T>::get(*it));
      std::vector<int> r;
      for (auto it = b.crbegin(); it != b.crend() && r.size() <= cap; ++it) r.push_back(tok<T>::get(*it));
      for (size_t i = r.size(); i > 0; --i) rv.add(r[i - 1]);
    }
    put(j, "c", c.o);
    put(j, "t", t.o);
    put(j, "u", u.o);
    put(j, "v", rv.o);
    put(j, "sl", sl.o);
    put(j, "w", w.o);
    j.arr("fb", n ? ints{tok<T>::get(b.front()), tok<T>::get(b.back())} : ints{});
    j.num("p", static_cast<long long>(b.raw_index(b.begin())));
    j.num("e", static_cast<long long>(b.raw_index(b.cend())));
    j.num("g", guard);
    // random access at chosen positions: index, token, distances both ways, order, raw index; from the other end, too
    j.key("ra");
    j.s += "[";
    bool first = true;
    if (n <= cap) {
      std::vector<size_t> at{0, 1, n / 2, n - 1, n, 127, 128, 255, 256, 32767, 32768, 65535, 65536, cap - 1 - static_cast<size_t>(b.raw_index(b.begin())),
                             cap - static_cast<size_t>(b.raw_index(b.begin()))};
      for (size_t i : at) {
        if (i > n) continue;
        auto it = b.begin() + static_cast<std::ptrdiff_t>(i);
        auto jt = b.cend() - static_cast<std::ptrdiff_t>(n - i);
        bool same = jt == it && !(it < jt) && it <= jt;
        long long v1 = i < n ? tok<T>::get(*it) : -1, v2 = i < n ? tok<T>::get(b.begin()[static_cast<std::ptrdiff_t>(i)]) : -1, v3 = i < n ? tok<T>::get(b.at(i)) : -1;
        ints x{static_cast<long long>(i), v1, v2, v3, it - b.begin(), b.end() - it, jt - b.cbegin(), same, static_cast<long long>(b.raw_index(it)),
               (b.begin() < it) + 2 * (it < b.end()) + 4 * (b.begin() <= it) + 8 * (it >= b.end())};
        j.s += first ? "[" : ",[";
        first = false;
        for (size_t k = 0; k < x.size(); ++k) j.s += (k ? "," : "") + std::to_string(x[k]);
        j.s += "]";
      }
    }
    j.s += "]";
    j.arr("ct", ct);
    j.num("le", n_err);
    j.emit();
  }

  void fresh(std::vector<std::string> const& w) {
    if (a) { a->clear(); delete a; }
    cap = toi(w[2]);
    size_t pos = toi(w[3]), n = toi(w[4]);
    mem.assign((cap + 2 * G) * sizeof(T) + 64, 0xA5);
    base = reinterpret_cast<T*>((reinterpret_cast<std::uintptr_t>(mem.data()) + 63) / 64 * 64) + G;
    lo = 0;
    hi = n;
    for (size_t i = 0; i < n; ++i) new (base + (pos + i) % cap) T(at(i));
    a = toi(w[1]) ? new A(base, base + cap, base + pos, n) : new A(base, cap, pos, n);
    begin();
    jrec j;
    j.str("op", "new");
    j.num("cap", cap);
    j.num("pos", pos);
    j.num("k", n);
    j.num("i", 0);
    j.str("y", triv ? "triv" : "tracked");
    put(j, "r", ints{});
    observe(j);
  }

  struct bulk_yes {
    static void run(session& s, jrec& j, std::string const& op, size_t i, size_t k) {
      A& a = *s.a;
      T* buf = new T[k + 4];
      for (size_t x = 0; x < k + 4; ++x) buf[x] = tok<T>::make(111);
      long long first = op == "cinb" ? s.hi : op == "cinf" ? s.lo - static_cast<long long>(k) : op == "over" ? s.lo + static_cast<long long>(i) + 100 : op == "unover" ? s.lo + static_cast<long long>(i) : -1;
      bool in = op == "cinb" || op == "cinf" || op == "over" || op == "unover";
      if (in) for (size_t x = 0; x < k; ++x) buf[2 + x] = at(first + static_cast<long long>(x));
      s.begin();
      if (op == "cinb") a.copy_in_back(buf + 2, k), s.hi += k;
      else if (op == "cinf") a.copy_in_front(buf + 2, k), s.lo -= k;
      else if (op == "coutb") a.copy_out_back(buf + 2, k), s.hi -= k;
      else if (op == "coutf") a.copy_out_front(buf + 2, k), s.lo += k;
      else if (op == "over" || op == "unover") a.copy_in(a.begin() + i, a.begin() + (i + k), static_cast<T const*>(buf + 2));
      else if (op == "outr") a.copy_out(a.cbegin() + i, a.cbegin() + (i + k), buf + 2);
      else std::abort();
      runs r(251);
      for (size_t x = 0; x < k + 4; ++x) if ((x >= 2 && x < k + 2) || tok<T>::get(buf[x]) != 111) r.add(tok<T>::get(buf[x]));
      delete[] buf;
      put(j, "r", in ? ints{} : r.o);
    }
  };
  struct bulk_no { static void run(session&, jrec&, std::string const&, size_t, size_t) { std::abort(); } };

  void op(std::vector<std::string> const& w) {
    std::string const& o = w[0];
    size_t k = toi(w[1]), i = w.size() > 2 ? toi(w[2]) : 0;
    jrec j;
    j.str("op", o);
    j.num("k", k);
    j.num("i", i);
    bool plain = true;
    begin();
    if (o == "pushb") for (size_t x = 0; x < k; ++x) { if (x % 2) a->push_back(at(hi)); else a->emplace_back(at(hi)); ++hi; }
    else if (o == "pushf") for (size_t x = 0; x < k; ++x) { --lo; if (x % 2) a->push_front(at(lo)); else a->emplace_front(at(lo)); }
    else if (o == "popb") for (size_t x = 0; x < k; ++x) { a->pop_back(); --hi; }
    else if (o == "popf") for (size_t x = 0; x < k; ++x) { a->pop_front(); ++lo; }
    else if (o == "popbn") a->pop_back(k), hi -= k;
    else if (o == "popfn") a->pop_front(k), lo += k;
    else if (o == "clear") { lo = hi; a->clear(); }
    else if (o == "reattach") {
      A* b = k ? new A(base, cap, a->raw_index(a->begin()), a->size()) : new A(std::move(*a));
      delete a;
      a = b;
    } else {
      plain = false;
      std::conditional<triv, bulk_yes, bulk_no>::type::run(*this, j, o, i, k);
    }
    if (plain) put(j, "r", ints{});
    observe(j);
  }

 public:
  int run() {
    std::string line;
    while (read_line(line)) {
      std::vector<std::string> w = words(line.c_str());
      if (w.empty()) continue;
      if (w[0] == "new") fresh(w); else op(w);
    }
    if (a) { a->clear(); delete a; }
    return 0;
  }
};

int main(int, char** argv) {
  std::string t = argv[1];
  if (t == "u8") { session<std::uint8_t> s; return s.run(); }
  if (t == "i32") { session<int> s; return s.run(); }
  if (t == "pod12") { session<pod12> s; return s.run(); }
  if (t == "tracked") { session<tracked> s; return s.run(); }
  return 3;
}
