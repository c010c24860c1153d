// Executes command scripts on circular_buffer_adapter<T> and logs what a client can observe.
// It decides nothing; the specification does.
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <map>
#include <new>
#include <set>
#include <type_traits>
#include <utility>

#include <embedded/circular_buffer_adapter.h>

#include "json_out.h"

#if defined(__cpp_exceptions)
#include <stdexcept>
#define EXC 1
#else
#define EXC 0
#endif

using std::size_t;
typedef std::vector<long long> ints;

// ---------------------------------------------------------------- ledger of instrumented elements
static std::set<const void*> g_live;
static long long g_err = 0;                                  // double construction / destruction of a non-object
static long long n_val = 0, n_copy = 0, n_move = 0, n_assign = 0, n_dtor = 0;
static long long g_throw = 0;                                // when 1, the next construction throws
static void ledger_ctor(const void* p) { if (!g_live.insert(p).second) ++g_err; }
static void ledger_dtor(const void* p) { if (!g_live.erase(p)) ++g_err; ++n_dtor; }
static void ledger_use(const void* p) { if (!g_live.count(p)) ++g_err; }
struct test_error { int code; };
static void maybe_throw() {
#if EXC
  if (g_throw == 1) { g_throw = 0; throw test_error{7}; }
#endif
}

// ---------------------------------------------------------------- what the memory looks like after every instruction
#if defined(__x86_64__) && !defined(__SANITIZE_ADDRESS__)
#include <csignal>
#define STEPS 1
extern "C" void tf_on();
extern "C" void tf_off();
__asm__(".text\n.globl tf_on\ntf_on:\n pushfq\n orq $0x100,(%rsp)\n popfq\n ret\n"
        ".globl tf_off\ntf_off:\n pushfq\n andq $~0x100,(%rsp)\n popfq\n ret\n");
static bool g_step = false;                                  // step through insertions
static unsigned char* w_base = nullptr;                      // the watched memory
static size_t w_bytes = 0, w_used = 0;
static long long w_images = 0, w_instr = 0;
static std::vector<unsigned char> w_log;                     // its successive states, back to back
static void on_trap(int) {
  ++w_instr;
  if (w_used && std::memcmp(w_log.data() + w_used - w_bytes, w_base, w_bytes) == 0) return;
  if (w_used + w_bytes > w_log.size()) return;
  std::memcpy(w_log.data() + w_used, w_base, w_bytes);
  w_used += w_bytes;
  ++w_images;
}
#endif

// ---------------------------------------------------------------- element types
struct pod12 { unsigned char b[12]; };
struct big300 { unsigned char b[300]; };
struct alignas(32) wide { std::uint32_t x[4]; };
enum class en : std::int16_t {};
struct dflt { int v = 5; };                                  // trivially copyable but not trivial

struct tracked {                                              // copy, move, value; may throw
  int v;
  void* self;
  explicit tracked(int x) : v(x), self(this) { maybe_throw(); ++n_val; ledger_ctor(this); }
  tracked(tracked const& o) : v(o.v), self(this) { ledger_use(&o); maybe_throw(); ++n_copy; ledger_ctor(this); }
  tracked(tracked&& o) : v(o.v), self(this) { ledger_use(&o); maybe_throw(); ++n_move; o.v = 0; ledger_ctor(this); }
  tracked& operator=(tracked const& o) { ledger_use(&o); ledger_use(this); v = o.v; ++n_assign; return *this; }
  tracked& operator=(tracked&& o) { ledger_use(&o); ledger_use(this); int t = o.v; o.v = 0; v = t; ++n_assign; return *this; }
  ~tracked() { ledger_dtor(this); if (self != this) ++g_err; v = -77; self = nullptr; }
};
struct alignas(64) tracked64 : tracked {
  explicit tracked64(int x) : tracked(x) {}
};
struct copyonly {
  int v;
  explicit copyonly(int x) : v(x) { maybe_throw(); ++n_val; ledger_ctor(this); }
  copyonly(copyonly const& o) : v(o.v) { ledger_use(&o); maybe_throw(); ++n_copy; ledger_ctor(this); }
  copyonly& operator=(copyonly const& o) { ledger_use(&o); ledger_use(this); v = o.v; ++n_assign; return *this; }
  ~copyonly() { ledger_dtor(this); v = -77; }
};
struct moveonly {
  int v;
  explicit moveonly(int x) : v(x) { maybe_throw(); ++n_val; ledger_ctor(this); }
  moveonly(moveonly const&) = delete;
  moveonly(moveonly&& o) : v(o.v) { ledger_use(&o); maybe_throw(); ++n_move; o.v = 0; ledger_ctor(this); }
  moveonly& operator=(moveonly&& o) { ledger_use(&o); ledger_use(this); int t = o.v; o.v = 0; v = t; ++n_assign; return *this; }
  ~moveonly() { ledger_dtor(this); v = -77; }
};
struct triv_tracked {                                         // trivial copy, non-trivial destructor
  int v;
  explicit triv_tracked(int x) : v(x) { maybe_throw(); ++n_val; ledger_ctor(this); }
  triv_tracked(triv_tracked const& o) : v(o.v) { ledger_use(&o); maybe_throw(); ++n_copy; ledger_ctor(this); }
  triv_tracked& operator=(triv_tracked const& o) { v = o.v; ++n_assign; return *this; }
  ~triv_tracked() { ledger_dtor(this); }
};
struct stringy {                                              // owns memory, points into itself when small
  std::string s;
  explicit stringy(int x) : s(x % 2 ? std::to_string(x) : std::string(40, 'x') + std::to_string(x)) { ++n_val; ledger_ctor(this); }
  stringy(stringy const& o) : s(o.s) { ledger_use(&o); ++n_copy; ledger_ctor(this); }
  stringy(stringy&& o) : s(std::move(o.s)) { ledger_use(&o); o.s.clear(); ++n_move; ledger_ctor(this); }
  stringy& operator=(stringy const& o) { s = o.s; ++n_assign; return *this; }
  stringy& operator=(stringy&& o) { std::string t(std::move(o.s)); o.s.clear(); s = std::move(t); ++n_assign; return *this; }
  ~stringy() { ledger_dtor(this); }
};

struct listy {                                                // also constructible from lists, and from several arguments
  int v;
  explicit listy(int x) : v(x) { maybe_throw(); ++n_val; ledger_ctor(this); }
  listy(int&&, int& y, int const& z) : v(y + z) { maybe_throw(); ++n_val; ledger_ctor(this); }
  listy(std::initializer_list<int>) : v(-9) { maybe_throw(); ++n_val; ledger_ctor(this); }
  listy(std::initializer_list<listy>) : v(-10) { maybe_throw(); ++n_val; ledger_ctor(this); }
  listy(listy const& o) : v(o.v) { ledger_use(&o); maybe_throw(); ++n_copy; ledger_ctor(this); }
  listy(listy&& o) : v(o.v) { ledger_use(&o); maybe_throw(); ++n_move; o.v = 0; ledger_ctor(this); }
  listy& operator=(listy const& o) { ledger_use(&o); ledger_use(this); v = o.v; ++n_assign; return *this; }
  listy& operator=(listy&& o) { ledger_use(&o); ledger_use(this); int t = o.v; o.v = 0; v = t; ++n_assign; return *this; }
  ~listy() { ledger_dtor(this); v = -77; }
};

struct pooled {                                               // allocates itself from a place of its own
  int v;
  explicit pooled(int x) : v(x) { maybe_throw(); ++n_val; ledger_ctor(this); }
  pooled(pooled const& o) : v(o.v) { ledger_use(&o); maybe_throw(); ++n_copy; ledger_ctor(this); }
  pooled(pooled&& o) : v(o.v) { ledger_use(&o); maybe_throw(); ++n_move; o.v = 0; ledger_ctor(this); }
  pooled& operator=(pooled const& o) { ledger_use(&o); ledger_use(this); v = o.v; ++n_assign; return *this; }
  pooled& operator=(pooled&& o) { ledger_use(&o); ledger_use(this); int t = o.v; o.v = 0; v = t; ++n_assign; return *this; }
  ~pooled() { ledger_dtor(this); v = -77; }
  static void* operator new(size_t) { ++g_err; std::abort(); }
  static void operator delete(void*) { ++g_err; std::abort(); }
};

static std::map<void const*, int> g_val;                      // values of the objects without data members
struct emptyt {
  explicit emptyt(int x) { maybe_throw(); ++n_val; ledger_ctor(this); g_val[this] = x; }
  emptyt(emptyt const& o) { ledger_use(&o); maybe_throw(); ++n_copy; ledger_ctor(this); g_val[this] = g_val[&o]; }
  emptyt(emptyt&& o) { ledger_use(&o); maybe_throw(); ++n_move; ledger_ctor(this); g_val[this] = g_val[&o]; g_val[&o] = 0; }
  emptyt& operator=(emptyt const& o) { ledger_use(&o); ledger_use(this); g_val[this] = g_val[&o]; ++n_assign; return *this; }
  emptyt& operator=(emptyt&& o) { ledger_use(&o); ledger_use(this); int t = g_val[&o]; g_val[&o] = 0; g_val[this] = t; ++n_assign; return *this; }
  ~emptyt() { ledger_dtor(this); g_val.erase(this); }
};
struct virt {                                                 // a class with a table of virtual functions
  int v;
  explicit virt(int x) : v(x) { maybe_throw(); ++n_val; ledger_ctor(this); }
  virt(virt const& o) : v(o.v) { ledger_use(&o); maybe_throw(); ++n_copy; ledger_ctor(this); }
  virt(virt&& o) : v(o.v) { ledger_use(&o); maybe_throw(); ++n_move; o.v = 0; ledger_ctor(this); }
  virt& operator=(virt const& o) { ledger_use(&o); ledger_use(this); v = o.v; ++n_assign; return *this; }
  virt& operator=(virt&& o) { ledger_use(&o); ledger_use(this); int t = o.v; o.v = 0; v = t; ++n_assign; return *this; }
  virtual ~virt() { ledger_dtor(this); v = -77; }
  virtual int get() const { return v; }
};

// token <-> element
template <typename T, typename = void> struct tok;
template <typename T> struct tok<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> {
  static T make(int v) { return static_cast<T>(v); }
  static int get(T const& t) { return static_cast<int>(t); }
};
template <> struct tok<en> {
  static en make(int v) { return static_cast<en>(v); }
  static int get(en const& t) { return static_cast<int>(t); }
};
template <typename T, int N> struct tokb {
  static T make(int v) { T t; for (int i = 0; i < N; ++i) t.b[i] = static_cast<unsigned char>(v + i); return t; }
  static int get(T const& t) { for (int i = 0; i < N; ++i) if (t.b[i] != static_cast<unsigned char>(t.b[0] + i)) return -5; return t.b[0]; }
};
template <> struct tok<pod12> : tokb<pod12, 12> {};
template <> struct tok<big300> : tokb<big300, 300> {};
template <> struct tok<wide> {
  static wide make(int v) { wide w; std::memset(&w, 0, sizeof w); for (int i = 0; i < 4; ++i) w.x[i] = v * 1000 + i; return w; }
  static int get(wide const& t) { for (int i = 0; i < 4; ++i) if (t.x[i] != t.x[0] + i) return -5; return t.x[0] / 1000; }
};
template <> struct tok<dflt> {
  static dflt make(int v) { dflt d; d.v = v; return d; }
  static int get(dflt const& t) { return t.v; }
};
template <> struct tok<int*> {
  static int arr[1024];
  static int* make(int v) { return arr + v; }
  static int get(int* const& t) { return static_cast<int>(t - arr); }
};
int tok<int*>::arr[1024];
template <typename T> struct tokv {
  static T make(int v) { return T(v); }
  static int get(T const& t) { return t.v; }
};
template <> struct tok<tracked> : tokv<tracked> {};
template <> struct tok<tracked64> : tokv<tracked64> {};
template <> struct tok<copyonly> : tokv<copyonly> {};
template <> struct tok<moveonly> : tokv<moveonly> {};
template <> struct tok<triv_tracked> : tokv<triv_tracked> {};
template <> struct tok<listy> : tokv<listy> {};
template <> struct tok<pooled> : tokv<pooled> {};
template <> struct tok<virt> {
  static virt make(int v) { return virt(v); }
  static int get(virt const& t) { return t.get(); }
};
template <> struct tok<emptyt> {
  static emptyt make(int v) { return emptyt(v); }
  static int get(emptyt const& t) { auto it = g_val.find(&t); return it == g_val.end() ? -6 : it->second; }
};
template <> struct tok<stringy> {
  static stringy make(int v) { return stringy(v); }
  static int get(stringy const& t) {
    if (t.s.empty()) return 0;
    size_t p = t.s.find_last_of('x');
    return std::atoi(t.s.c_str() + (p == std::string::npos ? 0 : p + 1));
  }
};

template <bool B> using yes = std::integral_constant<bool, B>;

// in-place construction argument of emplace
template <typename T, bool FromInt = std::is_constructible<T, int>::value && std::is_class<T>::value> struct emp {
  template <typename A> static T& back(A& a, int v) { return a.emplace_back(v); }
  template <typename A> static T& front(A& a, int v) { return a.emplace_front(v); }
  static void place(void* p, int v) { ::new (p) T(v); }
};
template <> struct emp<listy, true> {                         // several arguments, of different categories
  template <typename A> static listy& back(A& a, int v) { int y = v - 1; int const z = 1; return a.emplace_back(5, y, z); }
  template <typename A> static listy& front(A& a, int v) { int y = v - 1; int const z = 1; return a.emplace_front(5, y, z); }
  static void place(void* p, int v) { new (p) listy(v); }
};
template <typename T> struct emp<T, false> {
  template <typename A> static T& back(A& a, int v) { return a.emplace_back(tok<T>::make(v)); }
  template <typename A> static T& front(A& a, int v) { return a.emplace_front(tok<T>::make(v)); }
  static void place(void* p, int v) { new (p) T(tok<T>::make(v)); }
};

template <typename T, bool RO = false> class session {
  typedef typename std::conditional<RO, T const, T>::type E;
  typedef embedded::circular_buffer_adapter<E> A;
  static constexpr bool triv = std::is_trivial<T>::value;
  static constexpr bool can_copy = std::is_copy_constructible<T>::value && !RO;
  static constexpr bool can_move = !RO;
  static constexpr bool is_tracked = !std::is_trivially_destructible<T>::value;

  static constexpr size_t GUARD = 3;
  unsigned char* raw = nullptr;
  T* base = nullptr;
  size_t cap = 0;
  A* a = nullptr;
  std::vector<unsigned char> before;
  std::set<size_t> pre_live;
  T* scratch = nullptr;

  size_t bytes() const { return (cap + 2 * GUARD) * sizeof(T); }
  unsigned char* zone() const { return reinterpret_cast<unsigned char*>(base - GUARD); }

  void free_all() {
    if (!raw) return;
    for (size_t i = 0; i < cap; ++i)
      if (is_tracked && g_live.count(base + i)) (base + i)->~T();
    ::operator delete(raw);
    delete a;
    raw = nullptr;
    a = nullptr;
  }

  A* build(long form, size_t pos, size_t n) {
    switch (form) {
      case 0: return new A(base, cap, pos, n);
      case 1: return new A(base, base + cap, base + pos, n);
      case 2: return new A(base, cap);               // pos = 0, n = 0
      case 3: return new A(base, base + cap);
      case 4: { A* p = new A(); *p = A(base, cap, pos, n); return p; }
      default: { A t(base, base + cap, base + pos, n); return new A(std::move(t)); }
    }
  }

 public:
  ~session() { free_all(); }

  void fresh(std::vector<std::string> const& w) {
    free_all();
    long form = toi(w[1]);
    cap = toi(w[2]);
    size_t pos = toi(w[3]);
    size_t n = toi(w[4]);
    size_t al = alignof(T) < 16 ? 16 : alignof(T);
    raw = static_cast<unsigned char*>(::operator new(bytes() + al));
    // the memory sits right behind an aligned address, so elements are aligned as the caller guarantees
    std::uintptr_t p = (reinterpret_cast<std::uintptr_t>(raw) + al - 1) / al * al;
    base = reinterpret_cast<T*>(p) + GUARD;
    std::memset(zone(), 0xA5, bytes());
    for (size_t i = 0; i < n; ++i) emp<T>::place(base + (pos + i) % cap, static_cast<int>(toi(w[5 + i])));
    a = build(form, pos, n);
    begin_op();
    jrec j;
    j.str("op", "new");
    j.num("cap", cap);
    j.num("pos", pos % cap);
    ints vs;
    for (size_t i = 0; i < n; ++i) vs.push_back(toi(w[5 + i]));
    j.arr("v", vs);
    j.str("k", is_tracked ? (can_copy ? (std::is_same<T, copyonly>::value || std::is_same<T, triv_tracked>::value ? "copyonly" : "full") : "moveonly") : RO ? "ro" : "triv");
    observe(j);
  }

  long long v0 = 0, c0 = 0, m0 = 0, s0 = 0, d0 = 0, e0 = 0;
  size_t live0 = 0;
  void begin_op() {
    before.assign(zone(), zone() + bytes());
    v0 = n_val; c0 = n_copy; m0 = n_move; s0 = n_assign; d0 = n_dtor;
    live0 = g_live.size();
  }
  void begin_ins() {                                          // an insertion begins: watch it, if asked to
    begin_op();
#ifdef STEPS
    if (!g_step) return;
    w_base = reinterpret_cast<unsigned char*>(base);
    w_bytes = cap * sizeof(T);
    w_used = 0;
    w_images = 0;
    tf_on();
#endif
  }
  ints counters;
  void end_op() {
#ifdef STEPS
    if (g_step) tf_off();
#endif
    counters = ints{n_val - v0, n_copy - c0, n_move - m0, n_assign - s0, n_dtor - d0}; ended = true; }
  bool ended = false;

  long long slot_of(void const* p) const {
    std::ptrdiff_t d = static_cast<unsigned char const*>(p) - reinterpret_cast<unsigned char const*>(base);
    if (d < 0 || d % static_cast<std::ptrdiff_t>(sizeof(T)) != 0 || d / sizeof(T) >= cap) return -1;
    return d / sizeof(T);
  }

  void observe(jrec& j) {
    if (!ended) end_op();
    ended = false;
    // raw memory first, so that the observation itself cannot blur it
    ints changed;
    for (size_t i = 0; i < cap; ++i)
      if (std::memcmp(base + i, before.data() + (i + GUARD) * sizeof(T), sizeof(T)) != 0) changed.push_back(i);
    long long guard = 1;
    for (size_t i = 0; i < GUARD * sizeof(T); ++i)
      if (zone()[i] != 0xA5 || zone()[(GUARD + cap) * sizeof(T) + i] != 0xA5) guard = 0;
    std::vector<unsigned char> image(zone(), zone() + bytes());
    long long live_here = 0, live_else = 0;
    if (is_tracked) {
      for (auto p : g_live) (slot_of(p) >= 0 ? live_here : live_else)++;
    }
    A const& b = *a;
    size_t n = b.size();
    size_t m = n > cap + 1 ? cap + 1 : n;          // a broken count must not take us far out
    ints st{static_cast<long long>(n), b.empty(), b.full(), static_cast<long long>(b.capacity()), static_cast<long long>(b.remaining())};
    ints c, sl, t, fb, rt;
    long long all_live = 1;
    for (size_t i = 0; i < m && n <= cap; ++i) {
      c.push_back(tok<T>::get(b[i]));
      sl.push_back(slot_of(&b[i]));
      if (is_tracked && !g_live.count(&b[i])) all_live = 0;
    }
    if (n <= cap) {
      size_t lim = 0;
      for (auto it = b.cbegin(); it != b.cend() && lim <= cap + 1; ++it, ++lim) t.push_back(tok<T>::get(*it));
      lim = 0;
      for (auto it = b.begin(); it != b.end() && lim <= cap + 1; it++, ++lim) rt.push_back(tok<T>::get(*it));
    }
    if (!b.empty()) fb = ints{tok<T>::get(b.front()), tok<T>::get(b.back())};
    j.arr("s", st);
    j.arr("c", c);
    j.arr("t", t);
    j.arr("u", rt);
    j.arr("fb", fb);
    j.arr("sl", sl);
    j.num("p", static_cast<long long>(b.raw_index(b.begin())));
    j.num("e", static_cast<long long>(b.raw_index(b.cend())));
    j.arr("w", changed);
    j.num("g", guard);
    j.num("same", std::memcmp(image.data(), zone(), bytes()) == 0);      // observing changed nothing
    j.num("ln", live_here);
    j.num("lo", live_else);
    j.num("la", all_live);
    j.num("le", g_err);
    j.arr("ct", counters);
    j.emit();
  }

  // ---- insertion helpers
  long long push(bool back, std::string const& kind, int v, yes<true>, yes<true>) { return push_c(back, kind, v); }
  template <typename Y> long long push(bool back, std::string const& kind, int v, yes<false>, Y) { return push_m(back, kind, v); }
  long long push(bool, std::string const&, int, yes<true>, yes<false>) { std::abort(); }

  // returns the token left in the source (copy/move) or the slot-token of the returned reference (emplace)
  long long push_m(bool back, std::string const& kind, int v) {
    if (kind == "m") {
      T src(tok<T>::make(v));
      begin_ins();
      if (back) a->push_back(std::move(src)); else a->push_front(std::move(src));
      end_op();
      return tok<T>::get(src);
    }
    if (kind == "e") {
      begin_ins();
      T& r = back ? emp<T>::back(*a, v) : emp<T>::front(*a, v);
      end_op();
      return &r == &(back ? a->back() : a->front()) ? tok<T>::get(r) : -3;
    }
    if (kind == "x") {                              // emplace from a temporary of the element type
      T src(tok<T>::make(v));
      begin_ins();
      T& r = back ? a->emplace_back(std::move(src)) : a->emplace_front(std::move(src));
      end_op();
      return &r == &(back ? a->back() : a->front()) ? tok<T>::get(src) : -3;
    }
    std::fprintf(stderr, "bad push kind %s\n", kind.c_str());
    std::abort();
  }
  long long push_c(bool back, std::string const& kind, int v) {
    if (kind == "c") {
      T src(tok<T>::make(v));
      begin_ins();
      if (back) a->push_back(static_cast<T const&>(src)); else a->push_front(static_cast<T const&>(src));
      end_op();
      return tok<T>::get(src);
    }
    if (kind == "l") {                              // emplace from an lvalue: copies
      T src(tok<T>::make(v));
      begin_ins();
      T& r = back ? a->emplace_back(src) : a->emplace_front(src);
      end_op();
      return &r == &(back ? a->back() : a->front()) ? tok<T>::get(src) : -3;
    }
    if (kind == "a") {                              // copy of stored element v (index)
      begin_ins();
      if (back) a->push_back((*a)[v]); else a->push_front((*a)[v]);
      end_op();
      return tok<T>::get((*a)[back ? v : v + 1]);
    }
    return push_m(back, kind, v);
  }

  // failing insertions: the constructor of the new element throws
  long long fail(bool back, std::string const& kind, int v, yes<true>) {
    long long x = 0;
#if EXC
    int idx = v;
    if (kind == "a") v = 1;
    T src(tok<T>::make(v));
    begin_op();
    g_throw = 1;
    try {
      fail_op(back, kind, v, idx, src, yes<can_copy>());
    } catch (test_error const& e) {
      x = e.code == 7 ? 1 : 2;
    } catch (...) {
      x = 2;
    }
    end_op();
    if (g_throw) x = 3;                            // the constructor never ran
    g_throw = 0;
    if (tok<T>::get(src) != v) x = 4;               // source lost
#endif
    return x;
  }
  long long fail(bool, std::string const&, int, yes<false>) { std::abort(); }
  void fail_op(bool back, std::string const& kind, int v, int idx, T& src, yes<true>) {
    if (kind == "c") { if (back) a->push_back(static_cast<T const&>(src)); else a->push_front(static_cast<T const&>(src)); }
    else if (kind == "l") { if (back) a->emplace_back(src); else a->emplace_front(src); }
    else if (kind == "a") { if (back) a->push_back((*a)[idx]); else a->push_front((*a)[idx]); }
    else fail_op(back, kind, v, idx, src, yes<false>());
  }
  void fail_op(bool back, std::string const& kind, int v, int, T& src, yes<false>) {
    if (kind == "m") { if (back) a->push_back(std::move(src)); else a->push_front(std::move(src)); }
    else if (kind == "x") { if (back) a->emplace_back(std::move(src)); else a->emplace_front(std::move(src)); }
    else { if (back) emp<T>::back(*a, v); else emp<T>::front(*a, v); }
  }

  // ---- operations that need write access
  void mutate(std::vector<std::string> const&, yes<false>) {
    std::fprintf(stderr, "unsupported op for read-only type\n");
    std::abort();
  }
  void mutate(std::vector<std::string> const& w, yes<true>) {
    std::string const& op = w[0];
    jrec j;
    j.str("op", op);
    if (op == "pushb" || op == "pushf") {
      long long r = push(op == "pushb", w[1], static_cast<int>(toi(w[2])), yes<can_copy>(), yes<true>());
      j.str("k", w[1]);
      j.num("v", toi(w[2]));
      j.num("r", r);
    } else if (op == "failb" || op == "failf") {
      long long r = fail(op == "failb", w[1], static_cast<int>(toi(w[2])), yes<is_tracked>());
      j.str("k", w[1]);
      j.num("v", toi(w[2]));
      j.num("r", r);
    } else if (op == "popb") {
      begin_op();
      a->pop_back();
    } else if (op == "popf") {
      begin_op();
      a->pop_front();
    } else if (op == "popbn") {
      begin_op();
      a->pop_back(toi(w[1]));
      j.num("n", toi(w[1]));
    } else if (op == "popfn") {
      begin_op();
      a->pop_front(toi(w[1]));
      j.num("n", toi(w[1]));
    } else if (op == "clear") {
      begin_op();
      a->clear();
    } else if (op == "set") {
      long how = toi(w[1]);
      size_t i = toi(w[2]);
      int v = static_cast<int>(toi(w[3]));
      begin_op();
      T val(tok<T>::make(v));
      if (how == 0) (*a)[i] = std::move(val);
      else if (how == 1) a->at(i) = std::move(val);
      else if (how == 2) a->front() = std::move(val);
      else if (how == 3) a->back() = std::move(val);
      else *(a->begin() + i) = std::move(val);
      end_op();
      j.num("k", how);
      j.num("i", i);
      j.num("v", v);
#ifdef WITH_ITER
    } else if (op == "algo") {
      begin_op();
      algo(w);
      end_op();
      j.str("k", w[1]);
      j.num("n", w.size() > 2 ? toi(w[2]) : 0);
#endif
    } else {
      bulk(j, w, yes<triv && !RO>());
      return;
    }
    observe(j);
  }
#ifdef WITH_ITER
  static bool less(T const& x, T const& y) { return tok<T>::get(x) < tok<T>::get(y); }
  void algo(std::vector<std::string> const& w) {
    if (w[1] == "reverse") std::reverse(a->begin(), a->end());
    else if (w[1] == "sort") std::sort(a->begin(), a->end(), less);
    else if (w[1] == "rsort") std::sort(a->rbegin(), a->rend(), less);
    else if (w[1] == "stable") std::stable_sort(a->begin(), a->end(), less);
    else if (w[1] == "rotate") std::rotate(a->begin(), a->begin() + toi(w[2]), a->end());
  }

#endif

  void bulk(jrec&, std::vector<std::string> const& w, yes<false>) {
    std::fprintf(stderr, "unsupported op %s\n", w[0].c_str());
    std::abort();
  }
#ifndef WITH_BULK
  void bulk(jrec& j, std::vector<std::string> const& w, yes<true>) { bulk(j, w, yes<false>()); }
#else
  void bulk(jrec& j, std::vector<std::string> const& w, yes<true>) {
    std::string const& op = w[0];
    size_t const G = 2;
    if (op == "cinb" || op == "cinf") {
      size_t n = w.size() - 1;
      T* buf = new T[n + 2 * G];
      ints vs, after;
      for (size_t i = 0; i < n + 2 * G; ++i) buf[i] = tok<T>::make(111);
      for (size_t i = 0; i < n; ++i) { buf[G + i] = tok<T>::make(static_cast<int>(toi(w[1 + i]))); vs.push_back(toi(w[1 + i])); }
      begin_ins();
      if (op == "cinb") a->copy_in_back(buf + G, n); else a->copy_in_front(buf + G, n);
      end_op();
      for (size_t i = 0; i < n; ++i) after.push_back(tok<T>::get(buf[G + i]));
      delete[] buf;
      j.arr("v", vs);
      j.arr("r", after);
    } else if (op == "coutb" || op == "coutf") {
      size_t n = toi(w[1]);
      T* buf = new T[n + 2 * G];
      for (size_t i = 0; i < n + 2 * G; ++i) buf[i] = tok<T>::make(111);
      begin_op();
      if (op == "coutb") a->copy_out_back(buf + G, n); else a->copy_out_front(buf + G, n);
      end_op();
      ints out;
      for (size_t i = 0; i < n + 2 * G; ++i) out.push_back(tok<T>::get(buf[i]));
      delete[] buf;
      j.num("n", n);
      j.arr("r", out);
    } else if (op == "cinr") {
      size_t f = toi(w[1]), l = toi(w[2]);
      size_t n = l - f;
      T* buf = new T[n + 1];
      ints vs, after;
      for (size_t i = 0; i < n; ++i) { buf[i] = tok<T>::make(static_cast<int>(toi(w[3 + i]))); vs.push_back(toi(w[3 + i])); }
      begin_op();
      a->copy_in(a->begin() + f, a->begin() + l, const_cast<T const*>(buf));
      end_op();
      for (size_t i = 0; i < n; ++i) after.push_back(tok<T>::get(buf[i]));
      delete[] buf;
      j.num("i", f);
      j.num("n", n);
      j.arr("v", vs);
      j.arr("r", after);
    } else if (op == "coutr") {
      size_t f = toi(w[1]), l = toi(w[2]);
      size_t n = l - f;
      T* buf = new T[n + 2 * G];
      for (size_t i = 0; i < n + 2 * G; ++i) buf[i] = tok<T>::make(111);
      begin_op();
      if (w[3] == "c") a->copy_out(a->cbegin() + f, a->cbegin() + l, buf + G);
      else a->copy_out(a->begin() + f, a->begin() + l, buf + G);
      end_op();
      ints out;
      for (size_t i = 0; i < n + 2 * G; ++i) out.push_back(tok<T>::get(buf[i]));
      delete[] buf;
      j.num("i", f);
      j.num("n", n);
      j.arr("r", out);
    } else {
      std::fprintf(stderr, "unknown op %s\n", op.c_str());
      std::abort();
    }
    observe(j);
  }

#endif

  // ---- reading
  void at(size_t i) {
    jrec j;
    j.str("op", "at");
    j.num("i", i < 1000000000 ? i : 1000000000);
    long long x = 0, r = -1;
    begin_op();
#if EXC
    try {
      r = tok<T>::get(a->at(i));
    } catch (std::out_of_range const&) {
      x = 1;
    } catch (...) {
      x = 2;
    }
#else
    r = tok<T>::get(a->at(i));
#endif
    end_op();
    j.num("r", r);
    j.num("x", x);
    observe(j);
  }

#ifdef WITH_ITER
  template <typename I, typename J> static void cmp(ints& o, I const& x, J const& y) {
    long long b = 0;
    b |= (x == y) ? 1 : 0;
    b |= (x != y) ? 2 : 0;
    b |= (x < y) ? 4 : 0;
    b |= (x > y) ? 8 : 0;
    b |= (x <= y) ? 16 : 0;
    b |= (x >= y) ? 32 : 0;
    o.push_back(b);
  }
  template <typename I> long long val(I const& i, I const& end) { return i == end ? -1 : tok<T>::get(*i); }

  // every position, reached by single steps from the front
  template <typename I> std::vector<I> positions(I b, size_t n) {
    std::vector<I> v;
    I it = b;
    for (size_t i = 0; i <= n; ++i) {
      v.push_back(it);
      if (i < n) ++it;
    }
    return v;
  }
  // for each i, n: position and value of it+n by all routes
  template <typename I> void walk(ints& o, I b, I e, size_t n) {
    std::vector<I> ps = positions(b, n);
    for (size_t i = 0; i <= n; ++i) {
      o.push_back(ps[i] - b);
      o.push_back(e - ps[i]);
      o.push_back(ps[i] == b + i);
      o.push_back(val(ps[i], e));
      for (size_t k = 0; k <= n; ++k) {
        std::ptrdiff_t d = static_cast<std::ptrdiff_t>(k) - static_cast<std::ptrdiff_t>(i);
        I p1 = ps[i] + d, p2 = ps[i] - (-d), p3 = ps[i], p4 = ps[i];
        p3 += d;
        p4 -= -d;
        I p6 = ps[i];
        I& ref = (p6 += d);
        long long ok = (p1 == ps[k]) && (p2 == ps[k]) && (p3 == ps[k]) && (p4 == ps[k]) && (&ref == &p6) && p6 == ps[k];
        o.push_back(ok);
        o.push_back(p1 - ps[i]);
        o.push_back(val(p1, e));
        o.push_back(k < n ? tok<T>::get(ps[i][d]) : -1);
      }
    }
    // stepping backwards from the end, pre and post forms
    I it = e;
    for (size_t i = n; i > 0; --i) {
      I old = it--;
      o.push_back(old == ps[i] && it == ps[i - 1]);
      I it2 = old;
      o.push_back(--it2 == ps[i - 1]);
      I it3 = ps[i - 1];
      I old3 = it3++;
      o.push_back(old3 == ps[i - 1] && it3 == ps[i]);
    }
    I c;
    c = ps[n / 2];
    I c2(c), c3(std::move(c2));
    o.push_back(c3 == ps[n / 2]);
    std::swap(c, c3);
    o.push_back(c == ps[n / 2]);
    o.push_back(std::distance(b, e));
  }
  template <typename I> void random_access_extra(ints& o, I b, size_t n) {
    // n + it, only offered by the direct iterators
    for (size_t i = 0; i <= n; ++i)
      for (size_t k = i; k <= n; ++k) o.push_back((static_cast<std::ptrdiff_t>(k - i) + (b + i)) == b + k);
  }
  template <typename I> void arrows(ints& o, I b, size_t n) {
    for (size_t i = 0; i < n; ++i) {
      I it = b + i;
      o.push_back(it.operator->() == &*it && slot_of(&*it) == static_cast<long long>(a->raw_index(a->begin() + i)));
    }
  }
  void itall() {
    jrec j;
    begin_op();
    A const& b = *a;
    size_t n = b.size();
    ints mm, cc, rr, kk, pair, ex, idx;
    walk(mm, b.begin(), b.end(), n);
    walk(cc, b.cbegin(), b.cend(), n);
    walk(rr, b.rbegin(), b.rend(), n);
    walk(kk, b.crbegin(), b.crend(), n);
    auto pm = positions(b.begin(), n);
    auto pc = positions(b.cbegin(), n);
    auto pr = positions(b.rbegin(), n);
    auto pk = positions(b.crbegin(), n);
    for (size_t i = 0; i <= n; ++i)
      for (size_t k = 0; k <= n; ++k) {
        cmp(pair, pm[i], pm[k]);
        cmp(pair, pc[i], pc[k]);
        cmp(pair, pm[i], pc[k]);
        cmp(pair, pc[i], pm[k]);
        cmp(pair, pr[i], pr[k]);
        cmp(pair, pk[i], pk[k]);
      }
    for (size_t i = 0; i <= n; ++i) {
      typename A::const_iterator ci = pm[i];
      typename A::const_iterator cj;
      cj = pm[i];
      ex.push_back(ci == pc[i] && cj == pc[i]);
      idx.push_back(static_cast<long long>(b.raw_index(pm[i])));
      idx.push_back(static_cast<long long>(b.raw_index(pc[i])));
    }
    random_access_extra(ex, b.begin(), n);
    random_access_extra(ex, b.cbegin(), n);
    arrows(ex, b.begin(), n);
    arrows(ex, b.cbegin(), n);
    end_op();
    j.str("op", "itall");
    j.arr("mm", mm);
    j.arr("cc", cc);
    j.arr("rr", rr);
    j.arr("kk", kk);
    j.arr("pair", pair);
    j.arr("ex", ex);
    j.arr("ri", idx);
    observe(j);
  }

#endif

  // adapters without any capacity, in every form they can be made
  static void zero_one(ints& o, A& z, bool made) {
    A const& b = z;
    size_t n = b.size();
    o.push_back(static_cast<long long>(n));
    o.push_back(b.empty());
    o.push_back(b.full());
    o.push_back(static_cast<long long>(b.capacity()));
    o.push_back(static_cast<long long>(b.remaining()));
    o.push_back(b.begin() == b.end() && !(b.begin() != b.end()) && b.cbegin() == b.cend());
    o.push_back(b.rbegin() == b.rend() && b.crbegin() == b.crend());
    o.push_back(std::distance(b.begin(), b.end()));
    long long x = 1;
#if EXC
    for (size_t i : {size_t(0), size_t(1), ~size_t(0)}) {
      try {
        b.at(i);
        x = 0;
      } catch (std::out_of_range const&) {
      } catch (...) {
        x = 2;
      }
    }
#endif
    o.push_back(x);
    (void)made;
  }
  void zero_rest(ints& o, A& z, bool made, yes<true>) {
    z.clear();
    zero_one(o, z, made);
    if (!made) return;
    z.pop_front(0);
    z.pop_back(0);
    zero_one(o, z, made);
  }
  void zero_rest(ints&, A&, bool, yes<false>) {}
  void zero() {
    jrec j;
    j.str("op", "zero");
    ints o;
    begin_op();
    for (int f = 0; f < 8; ++f) {
      A z;
      T* m = base + cap / 2;
      if (f == 1) z = A(m, size_t(0));
      else if (f == 2) z = A(m, m);
      else if (f == 3) z = A(m, size_t(0), 0, 0);
      else if (f == 4) z = A(m, m, m, 0);
      else if (f == 5) { A y(m, size_t(0)); z = std::move(y); }
      else if (f == 6) z = A();
      else if (f == 7) { A y; A x(std::move(y)); z = std::move(x); }
      zero_one(o, z, f > 0 && f < 6);
      zero_rest(o, z, f > 0 && f < 6, yes<!RO>());
    }
    end_op();
    j.arr("r", o);
    observe(j);
  }

  void attach(std::vector<std::string> const& w) {
    jrec j;
    begin_op();
    if (w[0] == "reattach") {
      size_t pos = a->raw_index(a->begin());
      size_t n = a->size();
      long form = toi(w[1]);
      // position 0 may also be given as the end of the memory
      if (pos == 0 && w.size() > 2 && w[2] == "end") pos = cap;
      A* nw = build(form, pos, n);
      delete a;
      a = nw;
    } else if (w[1] == "c") {
      A* nw = new A(std::move(*a));
      delete a;
      a = nw;
    } else if (w[1] == "a") {
      A* nw = new A();
      *nw = std::move(*a);
      delete a;
      a = nw;
    } else if (w[1] == "s") {                                 // over an adapter of the same memory
      A* nw = build(0, a->raw_index(a->begin()), a->size());
      *nw = std::move(*a);
      delete a;
      a = nw;
    } else {                                                  // over one that manages elements somewhere else
      enum { K = 4 };
      alignas(T) unsigned char side[K * sizeof(T)], copy[K * sizeof(T)];
      std::memset(side, 0xA5, sizeof side);
      T* sb = reinterpret_cast<T*>(side);
      int n = w[1] == "o" ? 3 : 4;
      int p = w[1] == "o" ? 2 : 1;
      for (int i = 0; i < n; ++i) emp<T>::place(sb + (p + i) % K, 90 + i);
      std::memcpy(copy, side, sizeof side);
      begin_op();
      A* nw = new A(sb, K, p, n);
      *nw = std::move(*a);
      delete a;
      a = nw;
      end_op();
      if (std::memcmp(copy, side, sizeof side) != 0) ++g_err;
      for (int i = 0; i < n; ++i)
        if (is_tracked && !g_live.count(sb + (p + i) % K)) ++g_err;
        else { if (tok<T>::get(sb[(p + i) % K]) != 90 + i) ++g_err; sb[(p + i) % K].~T(); }
    }
    if (!ended) end_op();
    j.str("op", w[0]);
    observe(j);
  }

  // contents seen by a second adapter over a copy of the present memory, attached with old bookkeeping
  size_t saved_p = 0, saved_n = 0;      // bookkeeping a client would have saved before the last operation
  void save() {
    if (!a) return;
    saved_p = a->raw_index(a->begin());
    saved_n = a->size();
  }
  ints reattached(unsigned char const* img, size_t pos, size_t n) {
    std::vector<unsigned char> cp(bytes() + 128);
    std::uintptr_t p = (reinterpret_cast<std::uintptr_t>(cp.data()) + 63) / 64 * 64;
    std::memcpy(reinterpret_cast<void*>(p), img, cap * sizeof(T));
    T* m = std::is_empty<T>::value ? base : reinterpret_cast<T*>(p);
    embedded::circular_buffer_adapter<E> v(m, cap, pos, n);
    ints c;
    for (size_t i = 0; i < n; ++i) c.push_back(tok<T>::get(v[i]));
    return c;
  }
  void image() {
    jrec j;
    j.str("op", "image");
    j.arr("r", reattached(reinterpret_cast<unsigned char*>(base), saved_p, saved_n));
    // every state of the memory the insertion went through, re-attached; different contents only
    std::set<ints> seen;
#ifdef STEPS
    if (g_step)
      for (size_t o = 0; o + w_bytes <= w_used; o += w_bytes) seen.insert(reattached(w_log.data() + o, saved_p, saved_n));
    w_used = 0;
#endif
    j.key("m");
    j.s += "[";
    for (auto it = seen.begin(); it != seen.end(); ++it) {
      if (it != seen.begin()) j.s += ",";
      j.s += "[";
      for (size_t i = 0; i < it->size(); ++i) j.s += (i ? "," : "") + std::to_string((*it)[i]);
      j.s += "]";
    }
    j.s += "]";
    begin_op();
    observe(j);
  }

  int run() {
    std::string line;
    while (read_line(line)) {
      std::vector<std::string> w = words(line.c_str());
      if (w.empty()) continue;
      ended = false;
      if (w[0] == "image") { image(); continue; }
      save();
      if (w[0] == "new") fresh(w);
      else if (w[0] == "at") at(toi(w[1]));
      else if (w[0] == "atx") at((toi(w[1]) ? (size_t(1) << toi(w[1])) + toi(w[2]) : ~size_t(0) - toi(w[2])));
#ifdef WITH_ITER
      else if (w[0] == "itall") itall();
#endif
      else if (w[0] == "zero") zero();
      else if (w[0] == "obs") { jrec j; j.str("op", "obs"); begin_op(); observe(j); }
      else if (w[0] == "reattach" || w[0] == "move") attach(w);
      else mutate(w, yes<!RO>());
    }
    return 0;
  }
};

template <typename T, bool RO = false> static int go() { session<T, RO> s; return s.run(); }

// the types to instantiate are chosen by -DT_<name>
int main(int argc, char** argv) {
  std::string t = argv[1];
#ifdef STEPS
  if (argc > 2) {
    g_step = true;
    w_log.resize(1 << 22);
    std::signal(SIGTRAP, on_trap);
  }
#endif
  (void)argc;
#ifdef T_u8
  if (t == "u8") return go<std::uint8_t>();
#endif
#ifdef T_i16
  if (t == "i16") return go<std::int16_t>();
#endif
#ifdef T_i32
  if (t == "i32") return go<int>();
#endif
#ifdef T_u64
  if (t == "u64") return go<std::uint64_t>();
#endif
#ifdef T_f64
  if (t == "f64") return go<double>();
#endif
#ifdef T_ptr
  if (t == "ptr") return go<int*>();
#endif
#ifdef T_en
  if (t == "en") return go<en>();
#endif
#ifdef T_pod12
  if (t == "pod12") return go<pod12>();
#endif
#ifdef T_big300
  if (t == "big300") return go<big300>();
#endif
#ifdef T_wide
  if (t == "wide") return go<wide>();
#endif
#ifdef T_dflt
  if (t == "dflt") return go<dflt>();
#endif
#ifdef T_tracked
  if (t == "tracked") return go<tracked>();
#endif
#ifdef T_tracked64
  if (t == "tracked64") return go<tracked64>();
#endif
#ifdef T_copyonly
  if (t == "copyonly") return go<copyonly>();
#endif
#ifdef T_moveonly
  if (t == "moveonly") return go<moveonly>();
#endif
#ifdef T_triv_tracked
  if (t == "triv_tracked") return go<triv_tracked>();
#endif
#ifdef T_listy
  if (t == "listy") return go<listy>();
#endif
#ifdef T_pooled
  if (t == "pooled") return go<pooled>();
#endif
#ifdef T_emptyt
  if (t == "emptyt") return go<emptyt>();
#endif
#ifdef T_virt
  if (t == "virt") return go<virt>();
#endif
#ifdef T_stringy
  if (t == "stringy") return go<stringy>();
#endif
#ifdef T_ro8
  if (t == "ro8") return go<std::uint8_t, true>();
#endif
#ifdef T_ro12
  if (t == "ro12") return go<pod12, true>();
#endif
  std::fprintf(stderr, "unknown type\n");
  return 3;
}
