// Executes command scripts on embedded::function wrappers and logs what a client can observe.
#include <csignal>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>

#include <sys/wait.h>
#include <unistd.h>

#include <embedded/function.h>

#include "ledger.h"
#include "json_out.h"

typedef std::vector<long long> ints;

struct Obj {
  int x;
  int twice() { return 2 * x; }
  int thrice() const { return 3 * x; }
};

#ifndef SIG
#define SIG int(Obj&)
#define CONST_SIG 0
#endif
#ifndef CAP
#define CAP 48
#define ALIGN 16
#endif
#if CAP == 0
typedef embedded::function<SIG> F;               // the defaults
#else
typedef embedded::function<SIG, CAP, ALIGN> F;
#endif

// base of instrumented callables: knows its own address, counts
struct traced {
  const void* self;
  traced() : self(this) { ++led::val; led::born(this); }
  traced(traced const& o) : self(this) { led::need(&o); ++led::copy; led::born(this); }
  traced(traced&& o) noexcept : self(this) { led::need(&o); ++led::move; led::born(this); }
  ~traced() { if (self != this) ++led::err; self = nullptr; led::dead(this); }
  void use() const { if (self != this) ++led::err; led::need(this); }
};

static int g_nc = 0, g_c = 0;                    // calls of non-const / const call operators

// state s; pure: const call operator
struct pure : traced {
  int s;
  explicit pure(int v) : s(v) {}
  pure(pure const&) = default;
  pure(pure&& o) noexcept : traced(std::move(o)), s(o.s) { o.s = -1; }
  int operator()(Obj& o) const { use(); ++g_c; return s + o.x; }
};
// counting: only a non-const call operator, changes its state
struct count : traced {
  int s;
  explicit count(int v) : s(v) {}
  count(count const&) = default;
  count(count&& o) noexcept : traced(std::move(o)), s(o.s) { o.s = -1; }
  int operator()(Obj& o) { use(); ++g_nc; int r = s + o.x; s += 1000; return r; }
};
// both overloads
struct over : traced {
  int s;
  explicit over(int v) : s(v) {}
  over(over const&) = default;
  over(over&& o) noexcept : traced(std::move(o)), s(o.s) { o.s = -1; }
  int operator()(Obj& o) { use(); ++g_nc; int r = s + o.x; s += 1000; return r; }
  int operator()(Obj& o) const { use(); ++g_c; return s + o.x + 7; }
};
// not copyable
struct moveonly : traced {
  int s;
  explicit moveonly(int v) : s(v) {}
  moveonly(moveonly const&) = delete;
  moveonly(moveonly&& o) noexcept : traced(std::move(o)), s(o.s) { o.s = -1; }
  int operator()(Obj& o) const { use(); ++g_c; return s + o.x; }
};
// a list of (almost) anything could also initialise it
struct anything { template <typename T> anything(T const&) { ++led::copy; } };
struct listable : traced {
  int s;
  explicit listable(int v) : s(v) {}
  listable(std::initializer_list<anything> l) : s(-99 - static_cast<int>(l.size())) {}
  listable(listable const&) = default;
  listable(listable&& o) noexcept : traced(std::move(o)), s(o.s) { o.s = -1; }
  int operator()(Obj& o) const { use(); ++g_c; return s + o.x; }
};
// owns memory
struct owner : traced {
  std::unique_ptr<int> p;
  explicit owner(int v) : p(new int(v)) {}
  owner(owner&& o) noexcept : traced(std::move(o)), p(std::move(o.p)) {}
  int operator()(Obj& o) const { use(); ++g_c; return *p + o.x; }
};
// owns another wrapper, of the same signature and smaller storage
typedef embedded::function<SIG, 16, 8> Inner;
struct nest : traced {
  Inner f;
  explicit nest(int v) : f(pure(v)) {}
  nest(nest&& o) noexcept : traced(std::move(o)), f(std::move(o.f)) {}
  int operator()(Obj& o) const { use(); return const_cast<Inner&>(f)(o); }
};
// plain bytes, not instrumented: trivially copyable, any size
template <int N> struct bytes {
  unsigned char b[N];
  explicit bytes(int v) { for (int i = 0; i < N; ++i) b[i] = static_cast<unsigned char>(v + i); }
  int operator()(Obj& o) const {
    ++g_c;
    for (int i = 0; i < N; ++i) if (b[i] != static_cast<unsigned char>(b[0] + i)) return -5;
    return b[0] + o.x;
  }
};
typedef bytes<7> plain;
typedef bytes<1> one;
typedef bytes<(CAP ? CAP : 24) - 1> odd;    // all but one byte of the storage
typedef bytes<(CAP ? CAP : 24)> whole;
struct three {                                     // trivially copyable, size no multiple of a pointer's
  int a, b, c;
  explicit three(int v) : a(v), b(3 * v + 1), c(-v) {}
  int operator()(Obj& o) const { ++g_c; return b == 3 * a + 1 && c == -a ? a + o.x : -5; }
};
struct knower {                                    // copies itself its own way, but needs no destruction
  knower const* self;
  int s;
  explicit knower(int v) : self(this), s(v) {}
  knower(knower const& o) noexcept : self(this), s(o.s) {}
  knower(knower&& o) noexcept : self(this), s(o.s) { o.s = -1; }
  int operator()(Obj& o) const { ++g_c; return self == this ? s + o.x : -5; }
};
static int free_fn(Obj& o) { return o.x + 5; }
static int free_fn2(Obj& o) { return o.x + 6; }

#if CONST_SIG
typedef pure countable;
#else
typedef count countable;
#endif

static const int W = 4;
struct alignas(64) cell { unsigned char lo[64]; unsigned char pad[64]; unsigned char mem[(sizeof(F) + 63) / 64 * 64]; unsigned char hi[64]; };
static cell g_cells[W];
static bool g_alive[W];
static F& at(int w) { return *reinterpret_cast<F*>(g_cells[w].mem); }
static void* mem(int w) { return g_cells[w].mem; }

// user objects that lvalue forms and std::ref refer to
static pure* u_pure;
static countable* u_ref;

template <bool B> using yes = std::integral_constant<bool, B>;

static long long c_copy, c_move, c_left;         // measured by store
static long long a0;
static void begin_op() {
  c_copy = led::copy; c_move = led::move;
#ifdef COUNT_ALLOCS
  led::allocs = 0;
  led::counting = true;
#endif
}
static void end_op() {
#ifdef COUNT_ALLOCS
  led::counting = false;
#endif
  c_copy = led::copy - c_copy; c_move = led::move - c_move;
}

template <typename X> static void put(bool fresh, int w, X&& x) {
  begin_op();
  if (fresh) ::new (mem(w)) F(std::forward<X>(x));
  else at(w) = std::forward<X>(x);
  end_op();
}
template <typename T> static int left(T const& t) { return t.s; }
static int left(owner const& t) { return t.p ? *t.p : -1; }
static int left(nest const& t) { return t.f ? 1 : -1; }
template <int N> static int left(bytes<N> const& t) { return t.b[0]; }
static int left(three const& t) { return t.a; }

template <typename T> static void lval(bool fresh, int w, int v, yes<true>) { T t(v); put(fresh, w, t); c_left = left(t); }
template <typename T> static void lval(bool, int, int, yes<false>) { std::abort(); }
template <typename T> static void by_form(bool fresh, int w, std::string const& form, int v) {
  typedef yes<std::is_copy_constructible<T>::value> cp;
  if (form == "l") { lval<T>(fresh, w, v, cp()); }
  else if (form == "k") { lval<T const>(fresh, w, v, cp()); }
  else if (form == "t") { c_left = -1; put(fresh, w, T(v)); }
  else { T t(v); put(fresh, w, std::move(t)); c_left = left(t); }
}
static void by_const(bool, int) {}

static bool store(bool fresh, int w, std::vector<std::string> const& a, size_t i) {
  std::string const& how = a[i];
  c_left = 0;
  if (how == "dflt") { begin_op(); if (fresh) ::new (mem(w)) F(); else at(w) = F(); end_op(); }
  else if (how == "null") put(fresh, w, nullptr);
  else if (how == "fp") put(fresh, w, &free_fn);
  else if (how == "fr") put(fresh, w, free_fn2);
  else if (how == "mf") put(fresh, w, &Obj::twice);
  else if (how == "mk") put(fresh, w, &Obj::thrice);
  else if (how == "md") put(fresh, w, &Obj::x);
  else if (how == "nmf") put(fresh, w, static_cast<int (Obj::*)()>(nullptr));
  else if (how == "nmk") put(fresh, w, static_cast<int (Obj::*)() const>(nullptr));
  else if (how == "nmd") put(fresh, w, static_cast<int Obj::*>(nullptr));
  else if (how == "mv") put(fresh, w, std::move(at(toi(a[i + 1]))));
  else if (how == "ref") put(fresh, w, std::ref(*u_ref));
  else if (how == "lam") { int v = toi(a[i + 1]); put(fresh, w, [v](Obj& o) { return v + o.x; }); }
  else if (how == "lmu") {
#if CONST_SIG
    std::abort();
#else
    int v = toi(a[i + 1]); put(fresh, w, [v](Obj& o) mutable { int r = v + o.x; v += 1000; return r; });
#endif
  }
  else if (how == "pure") by_form<pure>(fresh, w, a[i + 1], toi(a[i + 2]));
#if !CONST_SIG
  else if (how == "count") by_form<count>(fresh, w, a[i + 1], toi(a[i + 2]));
#endif
  else if (how == "over") by_form<over>(fresh, w, a[i + 1], toi(a[i + 2]));
  else if (how == "listable") by_form<listable>(fresh, w, a[i + 1], toi(a[i + 2]));
  else if (how == "moveonly") by_form<moveonly>(fresh, w, a[i + 1], toi(a[i + 2]));
  else if (how == "owner") by_form<owner>(fresh, w, a[i + 1], toi(a[i + 2]));
#if CAP >= 40
  else if (how == "nest") by_form<nest>(fresh, w, a[i + 1], toi(a[i + 2]));
#endif
  else if (how == "plain") by_form<plain>(fresh, w, a[i + 1], toi(a[i + 2]));
  else if (how == "one") by_form<one>(fresh, w, a[i + 1], toi(a[i + 2]));
  else if (how == "odd") by_form<odd>(fresh, w, a[i + 1], toi(a[i + 2]));
  else if (how == "whole") by_form<whole>(fresh, w, a[i + 1], toi(a[i + 2]));
  else if (how == "three") by_form<three>(fresh, w, a[i + 1], toi(a[i + 2]));
  else if (how == "knower") by_form<knower>(fresh, w, a[i + 1], toi(a[i + 2]));
  else return false;
  return true;
}

#if CONST_SIG
static int call(int w, Obj& o) { return static_cast<F const&>(at(w))(o); }
#else
static int call(int w, Obj& o) { return at(w)(o); }
#endif

struct other_error { int v; };

int main() {
  countable ref_target(500);
  u_ref = &ref_target;
  for (int i = 0; i < W; ++i) std::memset(&g_cells[i], 0xA5, sizeof(cell));
  std::string line;
  while (read_line(line)) {
    std::vector<std::string> a = words(line.c_str());
    if (a.empty()) continue;
    jrec j;
    std::string op = a[0];
    int w = a.size() > 1 ? toi(a[1]) : 0;
    c_left = 0;
    c_copy = c_move = 0;
    j.str("op", op);
    j.num("w", w);
    if (op == "reset") {
      for (int i = 0; i < W; ++i) if (g_alive[i]) { at(i).~F(); g_alive[i] = false; }
      ref_target.s = 500;
    } else if (op == "new" || op == "asg") {
      if (!store(op == "new", w, a, 2)) { std::fprintf(stderr, "bad how %s\n", a[2].c_str()); return 3; }
      g_alive[w] = true;
      j.str("h", a[2]);
      std::string form = a.size() > 4 ? a[3] : "";
      j.str("f", form);
      j.num("v", a.size() > 3 ? toi(a.back()) : 0);
    } else if (op == "del") {
      begin_op();
      at(w).~F();
      end_op();
      g_alive[w] = false;
    } else if (op == "swap") {
      int x = toi(a[2]);
      j.num("v", x);
      begin_op();
      std::swap(at(w), at(x));
      end_op();
    } else if (op == "call") {
      Obj o{static_cast<int>(toi(a[2]))};
      j.num("v", o.x);
      long long r = -9, x = 0;
      g_nc = g_c = 0;
      begin_op();
#if EXC
      try {
        r = call(w, o);
      } catch (std::bad_function_call const&) {
        x = 1;
      } catch (...) {
        x = 2;
      }
      end_op();
      if (x == 1) c_copy = c_move = 0;
#ifdef COUNT_ALLOCS
      if (x) led::allocs = 0;                     // the exception object itself
#endif
#else
      if (at(w)) {
        r = call(w, o);
      } else {
        std::fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
          std::set_terminate([] { _exit(42); });
          call(w, o);
          _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        x = WIFEXITED(st) && WEXITSTATUS(st) == 42 ? 1 : 3;
      }
      end_op();
#ifdef COUNT_ALLOCS
      if (x) led::allocs = 0;
#endif
#endif
      j.num("r", r);
      j.num("x", x);
      j.num("nc", g_nc);
      j.num("c", g_c);
    } else {
      std::fprintf(stderr, "bad op %s\n", op.c_str());
      return 3;
    }
    ints b, in;
    long long in_all = 0, guard = 1;
    for (int i = 0; i < W; ++i) {
      b.push_back(g_alive[i] ? (static_cast<bool>(static_cast<F const&>(at(i))) ? 1 : 0) : -1);
      long long n = led::inside(g_cells[i].mem, sizeof(F));
      in.push_back(n);
      in_all += n;
      for (int k = 0; k < 64; ++k) if (g_cells[i].lo[k] != 0xA5 || g_cells[i].hi[k] != 0xA5 || g_cells[i].pad[k] != 0xA5) guard = 0;
    }
    j.arr("b", b);
    j.arr("in", in);
    j.num("out", led::used - in_all - 1);          // the object std::ref refers to is always there
    j.num("err", led::err);
    j.num("cp", c_copy);
    j.num("mv", c_move);
    j.num("left", c_left);
    j.num("g", guard);
#ifdef COUNT_ALLOCS
    j.num("al", led::allocs);
    led::allocs = 0;
#else
    j.num("al", 0);
#endif
    j.emit();
  }
  return 0;
}
