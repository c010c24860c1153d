// Replays histories of MoveWrapper.tla on real move wrappers and closures.
// usage: mw_driver PAYLOAD < operations
#include <functional>
#include <initializer_list>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include "ledger.h"
#include "json_out.h"

namespace {

const int GONE = -2;

// ---- payloads: made from an int, value visible by see(), writable by put()
struct counted {                       // copyable, every instance known
  int v;
  explicit counted(int x) : v(x) { led::born(this); }
  counted(counted const& o) : v(o.v) { ++led::copy; led::born(this); }
  counted(counted&& o) noexcept : v(o.v) { ++led::move; led::need(&o); o.v = GONE; led::born(this); }
  counted& operator=(counted const& o) { ++led::copy; v = o.v; return *this; }
  counted& operator=(counted&& o) noexcept { v = o.v; o.v = GONE; return *this; }
  ~counted() { led::dead(this); }
  int see() const { led::need(this); return v; }
  void put(int x) { led::need(this); v = x; }
};
struct single {                        // move-only
  int v;
  explicit single(int x) : v(x) { led::born(this); }
  single(single&& o) noexcept : v(o.v) { led::need(&o); o.v = GONE; led::born(this); }
  single& operator=(single&&) = delete;
  ~single() { led::dead(this); }
  int see() const { led::need(this); return v; }
  void put(int x) { led::need(this); v = x; }
};
struct thrower {                       // moving may throw, copying is possible
  int v;
  explicit thrower(int x) : v(x) { led::born(this); }
  thrower(thrower const& o) : v(o.v) { ++led::copy; led::born(this); }
  thrower(thrower&& o) noexcept(false) : v(o.v) { led::need(&o); led::may_fail(); o.v = GONE; led::born(this); }
  ~thrower() { led::dead(this); }
  int see() const { led::need(this); return v; }
  void put(int x) { led::need(this); v = x; }
};
struct cthrower {                      // moving may throw, everything else promises not to
  int v;
  cthrower() noexcept : v(GONE) { led::born(this); }
  explicit cthrower(int x) noexcept : v(x) { led::born(this); }
  cthrower(cthrower const& o) noexcept : v(o.v) { ++led::copy; led::born(this); }
  cthrower(cthrower&& o) noexcept(false) : v(o.v) { led::need(&o); led::may_fail(); o.v = GONE; led::born(this); }
  cthrower& operator=(cthrower const& o) noexcept { ++led::copy; v = o.v; return *this; }
  cthrower& operator=(cthrower&& o) noexcept { v = o.v; o.v = GONE; return *this; }
  ~cthrower() { led::dead(this); }
  friend void swap(cthrower& a, cthrower& b) noexcept { std::swap(a.v, b.v); }
  int see() const { led::need(this); return v; }
  void put(int x) { led::need(this); v = x; }
};
struct sthrower {                      // moving may throw, move-only
  int v;
  explicit sthrower(int x) : v(x) { led::born(this); }
  sthrower(sthrower&& o) noexcept(false) : v(o.v) { led::need(&o); led::may_fail(); o.v = GONE; led::born(this); }
  ~sthrower() { led::dead(this); }
  int see() const { led::need(this); return v; }
  void put(int x) { led::need(this); v = x; }
};
struct owner {                         // owns memory
  std::unique_ptr<int> p;
  explicit owner(int x) : p(new int(x)) {}
  int see() const { return p ? *p : GONE; }
  void put(int x) { *p = x; }
};
struct aggr {                          // aggregate with several parts
  std::unique_ptr<int> p;
  int pad[7];
  int see() const { return p ? (pad[6] == *p ? *p : -77) : GONE; }
  void put(int x) { *p = x; pad[6] = x; }
};
struct any_of {                        // converts from anything, like std::any
  int v = -5;
  any_of() {}
  template <typename T>
  any_of(T const&) { ++led::copy; }
};
struct list {                          // container that a list of itself could also initialise
  std::vector<int> d;
  explicit list(int x) : d(static_cast<std::size_t>(x % 5 + 1), x) {}
  list(std::initializer_list<any_of> l) : d(l.size() + 100, -9) {}
  list(list const& o) : d(o.d) { ++led::copy; }
  list(list&& o) noexcept : d(std::move(o.d)) { o.d.clear(); }
  int see() const { return d.empty() ? GONE : d.size() == static_cast<std::size_t>(d[0] % 5 + 1) ? d[0] : -78; }
  void put(int x) { d.assign(static_cast<std::size_t>(x % 5 + 1), x); }
};
struct number {                        // trivial: moving leaves the source as it is
  int v;
  explicit number(int x) : v(x) {}
  int see() const { return v; }
  void put(int x) { v = x; }
};
struct alignas(64) wide {              // over-aligned, self-referential
  wide* self;
  int v;
  explicit wide(int x) : self(this), v(x) {}
  wide(wide&& o) noexcept : self(this), v(o.v) { o.v = GONE; }
  int see() const { return self == this && reinterpret_cast<std::uintptr_t>(this) % 64 == 0 ? v : -79; }
  void put(int x) { v = x; }
};
struct greedy {                        // has a constructor that would rather take anything
  int v;
  explicit greedy(int x) : v(x) {}
  greedy(greedy&& o) noexcept : v(o.v) { o.v = GONE; }
  greedy(greedy const& o) : v(o.v) { ++led::copy; }
  greedy(greedy& o) : v(o.v) { ++led::copy; }
  int see() const { return v; }
  void put(int x) { v = x; }
};
struct coy {                           // does not give its address to the operator
  int v;
  explicit coy(int x) : v(x) { led::born(this); }
  coy(coy&& o) noexcept : v(o.v) { led::need(&o.v); o.v = GONE; led::born(this); }
  ~coy() { led::dead(this); }
  coy* operator&() { return nullptr; }
  coy const* operator&() const { return nullptr; }
  int see() const { led::need(this); return v; }
  void put(int x) { led::need(this); v = x; }
};

template <typename T> T make(int x) { return T(x); }
template <> aggr make<aggr>(int x) { return aggr{std::unique_ptr<int>(new int(x)), {x, x, x, x, x, x, x}}; }


bool acc = true;                       // access gave the payload itself

template <typename T>
int look(embedded::move_wrapper<T>& w) {
  typedef embedded::move_wrapper<T> W;
  const W& c = w;
  static_assert(std::is_same<decltype(*w), T&>::value, "mutable access");
  static_assert(std::is_same<decltype(*c), T const&>::value, "constant access");
  static_assert(std::is_same<decltype(w.operator->()), T*>::value, "mutable access");
  static_assert(std::is_same<decltype(c.operator->()), T const*>::value, "constant access");
  const char* lo = reinterpret_cast<const char*>(std::addressof(w));
  const char* at = reinterpret_cast<const char*>(std::addressof(*c));
  if (!(std::addressof(*w) == std::addressof(*c) && w.operator->() == std::addressof(*w) &&
        c.operator->() == std::addressof(*c) && at >= lo && at + sizeof(T) <= lo + sizeof(W))) acc = false;
  int a = (*w).see();
  if (w->see() != a || (*c).see() != a || c->see() != a) acc = false;
  return a;
}
template <typename T>
void write(embedded::move_wrapper<T>& w, int x) {
  if (x % 2) (*w).put(x); else w->put(x);
}

// ---- places: a wrapper, a closure that captured one, or a function holding such a closure
struct place {
  static void* operator new(std::size_t n) {      // C++11 does not align beyond the fundamental alignment
    void* p = nullptr;
    if (posix_memalign(&p, 64, n)) std::abort();
    return p;
  }
  static void operator delete(void* p) { std::free(p); }
#if __cplusplus >= 201703L
  static void* operator new(std::size_t n, std::align_val_t) { return operator new(n); }
  static void operator delete(void* p, std::align_val_t) { std::free(p); }
#endif
  virtual ~place() {}
  virtual int call(int x) = 0;         // x < 0: read, else write
  virtual place* fresh(char how) = 0;  // c: copy, k: copy of constant, m: move, n: move of constant, v: by value, f, s: function
};

template <typename X> X pass(X x) { return x; }

template <typename F, bool Fn>
struct in_function {
  static place* go(F&, char) { return nullptr; }
};

template <typename Fun>
struct fplace : place {
  Fun f;
  template <typename F>
  explicit fplace(F&& x) : f(std::forward<F>(x)) {}
  fplace(fplace&& o, int) : f(std::move(o.f)) {}
  int call(int x) override { return f ? f(x) : GONE; }
  place* fresh(char) override { return new fplace(std::move(*this), 0); }
};
template <typename F>
struct in_function<F, true> {
  static place* go(F& f, char how) {
    if (how == 's' && alignof(F) <= 16) return new fplace<std::function<int(int)>>(f);
    typedef embedded::function<int(int), 256, 64> E;
    if (how == 'g') return new fplace<E>(f);
    return new fplace<E>(std::move(f));
  }
};

template <typename F, bool Fn>
struct cplace : place {
  F f;
  explicit cplace(F& x) : f(x) {}
  explicit cplace(const F& x) : f(x) {}
  explicit cplace(F&& x) : f(std::move(x)) {}
  int call(int x) override { return f(x); }
  place* fresh(char how) override {
    switch (how) {
      case 'c': return new cplace(f);
      case 'k': return new cplace(static_cast<const F&>(f));
      case 'v': return new cplace(pass<F>(f));
      case 'm': return new cplace(std::move(f));
      default: return in_function<F, Fn>::go(f, how);
    }
  }
};
template <bool Fn, typename F>
place* closure(F&& f) {
  typedef typename std::decay<F>::type D;
  return new cplace<D, Fn>(std::forward<F>(f));
}

template <typename T>
struct wplace : place {
  typedef embedded::move_wrapper<T> W;
  W w;
  explicit wplace(T&& t) : w(std::move(t)) {}
  explicit wplace(W& o) : w(o) {}
  explicit wplace(W const& o) : w(o) {}
  explicit wplace(W&& o) : w(std::move(o)) {}
  explicit wplace(W const&& o) : w(std::move(o)) {}
  int call(int x) override {
    if (x < 0) return look(w);
    write(w, x);
    return x;
  }
  static const bool Fn = std::is_nothrow_move_constructible<T>::value;
  place* fresh(char how) override {
    switch (how) {
      case 'c': return new wplace(w);
      case 'k': return new wplace(static_cast<W const&>(w));
      case 'm': return new wplace(std::move(w));
      case 'n': return new wplace(std::move(static_cast<W const&>(w)));
      case 'v': return new wplace(pass<W>(w));
      default: {
        W& ref = w;
        return cap(ref);
      }
    }
  }
  static place* cap(W& w) {
    return closure<Fn>([w](int x) mutable -> int {
      if (x < 0) return look(w);
      write(w, x);
      return x;
    });
  }
};

template <typename T>
int left(T& t) { return t.see(); }

template <typename T>
int run(bool counts) {
  const int N = 8;
  place* at[N] = {};
  std::string line;
  while (read_line(line)) {
    auto w = words(line.c_str());
    if (w.empty()) continue;
    const std::string op = w[0];
    int d = w.size() > 1 ? static_cast<int>(toi(w[1])) : 0, v = w.size() > 2 ? static_cast<int>(toi(w[2])) : 0;
    int threw = 0, lf = -3;
    acc = true;
    led::copy = 0;
    bool arm = op[0] == 't';
    std::string base = arm ? op.substr(1) : op;
    if (op == "reset") {
      for (auto& p : at) { delete p; p = nullptr; }
    } else if (op == "del") {
      delete at[d];
      at[d] = nullptr;
    } else if (op == "set") {
      at[d]->call(v);
    } else if (op == "get") {
      at[d]->call(-1);
    } else {
#if EXC
      try {
#endif
        if (base == "make") {
          T t = make<T>(v);
          struct watch { T& t; int& to; ~watch() { to = left(t); } } wt{t, lf};
          led::fail_in = arm ? 1 : 0;
          at[d] = new wplace<T>(std::move(t));
        } else {
          led::fail_in = arm ? 1 : 0;
          char how = base == "cp" ? 'c' : base == "ccp" ? 'k' : base == "mv" ? 'm' : base == "cmv" ? 'n'
                   : base == "byval" ? 'v' : base == "cap" ? 'x' : d % 3 == 0 ? 'f' : d % 3 == 1 ? 's' : 'g';
          at[d] = at[v]->fresh(how);
        }
#if EXC
      } catch (led::failure&) {
        threw = 1;
      }
#endif
      led::fail_in = 0;
    }
    jrec r;
    r.str("op", op);
    r.num("d", d);
    r.num("v", v);
    std::vector<long long> vals;
    for (auto& p : at) vals.push_back(p ? p->call(-1) : -1);
    r.arr("val", vals);
    r.num("copies", led::copy);
    r.num("err", led::err);
    r.num("live", counts ? led::used : -1);
    r.num("threw", threw);
    r.num("left", lf);
    r.num("acc", acc ? 1 : 0);
    r.emit();
  }
  return 0;
}

}  // namespace

int main(int, char** argv) {
  const std::string p = argv[1];
  if (p == "counted") return run<counted>(true);
  if (p == "single") return run<single>(true);
#if EXC
  if (p == "thrower") return run<thrower>(true);
  if (p == "sthrower") return run<sthrower>(true);
  if (p == "cthrower") return run<cthrower>(true);
#endif
  if (p == "owner") return run<owner>(false);
  if (p == "aggr") return run<aggr>(false);
  if (p == "list") return run<list>(false);
  if (p == "number") return run<number>(false);
  if (p == "wide") return run<wide>(false);
  if (p == "greedy") return run<greedy>(false);
  if (p == "coy") return run<coy>(false);
  return 2;
}
