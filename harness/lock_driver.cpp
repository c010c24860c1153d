// Drives real lock guards over instrumented mutexes, following schedules of LockGuard.tla
// ("sched": one session per line) or freely with real threads ("free").  Logs what happens.
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <new>
#include <thread>
#include <type_traits>
#include <sys/wait.h>
#include <unistd.h>
#include <embedded/mutex.h>
#include "json_out.h"

#if defined(__cpp_exceptions)
#define EXC 1
#else
#define EXC 0
#endif

namespace {

void ev(const char* op, int t, const char* k1 = nullptr, long long v1 = 0, const char* k2 = nullptr, long long v2 = 0) {
  jrec r;
  r.str("op", op);
  r.num("t", t);
  if (k1) r.num(k1, v1);
  if (k2) r.num(k2, v2);
  r.emit();
}

struct err { int code; };

// ---- one thread runs at a time: the controller hands over commands and waits until the thread parks again
struct cmd { enum kind { none, open, grant, fail, leave, thrw, quit } k = none; int a = 0, c = 0, how = 0; };

std::mutex bm;
std::condition_variable bc;
const int NT = 4;
struct slot { bool busy = false, asking = false, ended = false; int want = 0; cmd in; int depth = 0; } sl[NT];

cmd next_cmd(int t) {
  std::unique_lock<std::mutex> g(bm);
  sl[t].busy = false;
  bc.notify_all();
  bc.wait(g, [&] { return sl[t].in.k != cmd::none; });
  cmd c = sl[t].in;
  sl[t].in.k = cmd::none;
  return c;
}
void give(int t, cmd c) {
  std::unique_lock<std::mutex> g(bm);
  sl[t].busy = true;
  sl[t].in = c;
  bc.notify_all();
  bc.wait(g, [&] { return !sl[t].busy || sl[t].ended; });
}

thread_local int me = 0;

// ---- instrumented mutexes
struct core {
  int id = 0, owner = 0, n = 0;
  bool rec = false;
  bool free_for(int t) const { return n == 0 || (rec && owner == t); }
  void lock() {
    ev("lock", me, "m", id);
    sl[me].asking = true;
    sl[me].want = id;
    cmd c = next_cmd(me);
    sl[me].asking = false;
    if (c.k == cmd::fail) {
      ev("nolock", me, "m", id);
#if EXC
      throw err{id};
#endif
    }
    owner = me;
    ++n;
    ev("acq", me, "m", id);
  }
  void unlock() {
    ev("unlock", me, "m", id);
    if (n > 0) --n;
  }
};
struct plain : core {
  plain() = default;
  plain(plain const&) = delete;
  plain& operator=(plain const&) = delete;
};
struct base {
  virtual ~base() {}
  virtual void lock() { std::abort(); }
  virtual void unlock() { std::abort(); }
};
struct derived : base {
  core k;
  int filler = 1;
  void lock() override { k.lock(); }
  void unlock() override { k.unlock(); }
};
struct reent {
  core k;
  bool lock() { k.lock(); return true; }
  int unlock() { k.unlock(); return 7; }
};

plain m1;
derived m2;
reent m3;
plain m4;
core* cores[] = {nullptr, &m1, &m2.k, &m3.k, &m4};

int inside(int t, int m);

// ---- the ways a guard comes to life
template <typename M>
struct holder {
  embedded::lock_guard<M> g;
  int result;
  holder(M& m, int t, int id) : g(m), result(inside(t, id)) {}
};
template <typename M>
struct keeper : embedded::lock_guard<M> {
  explicit keeper(M& m) : embedded::lock_guard<M>(m) {}
};
template <typename M>
struct owned {
  embedded::lock_guard<M>* p;
  ~owned() { delete p; }
};

template <typename M>
int temp(embedded::lock_guard<M> const&, int t, int id) { return inside(t, id); }

template <typename M>
int scope(M& m, int t, int id, int how) {
  switch (how % 7) {
    case 0: {
      embedded::lock_guard<M> g(m);
      return inside(t, id);
    }
    case 1: {
      owned<M> o{new embedded::lock_guard<M>(m)};
      return inside(t, id);
    }
    case 2: {
      holder<M> h(m, t, id);
      return h.result;
    }
    case 3: return temp<M>(embedded::lock_guard<M>(m), t, id);
    case 4: {
      keeper<M> k(m);
      return inside(t, id);
    }
    case 5: {
      int r = 0;
      for (int i = 0; i < 3; ++i) {
        const embedded::lock_guard<M> g{m};
        r = inside(t, id);
        if (r >= 0) break;
        continue;
      }
      return r;
    }
    default: {
      int r;
      {
        embedded::lock_guard<M> g(m);
        r = inside(t, id);
        if (r > 0) goto out;
      }
    out:
      return r;
    }
  }
}

int enter(int t, int id, int how) {
  switch (id) {
    case 1: return scope<plain>(m1, t, id, how);
    case 2: return scope<base>(m2, t, id, how);
    case 3: return scope<reent>(m3, t, id, how);
    default: return scope<plain>(m4, t, id, how);
  }
}

// runs the code of a thread at the current depth; returns the number of scopes still to be left
int code(int t) {
  for (;;) {
    cmd c = next_cmd(t);
    if (c.k == cmd::quit) return 1 << 20;
    if (c.k == cmd::leave) {
      ev("leave", t, "k", c.a);
      return c.a;
    }
#if EXC
    if (c.k == cmd::thrw) {
      ev("throw", t);
      throw err{0};
    }
#endif
    if (c.k == cmd::open) {
      int r = 0, d = sl[t].depth;
      ev("open", t, "m", c.a, "c", c.c);
#if EXC
      if (c.c) {
        try {
          r = enter(t, c.a, c.how);
        } catch (err&) {
          r = 1;
        }
      } else
#endif
        r = enter(t, c.a, c.how);
      sl[t].depth = d;
      if (r > 1) return r - 1;
      ev("out", t, "d", d);
    }
  }
}

int inside(int t, int m) {
  ++sl[t].depth;
  ev("body", t, "m", m);
  return code(t);
}

void body(int t) {
  me = t;
  while (code(t) < (1 << 20)) {}
  std::unique_lock<std::mutex> g(bm);
  sl[t].ended = true;
  bc.notify_all();
}

int session(const std::vector<std::string>& w, int how0) {
  for (int i = 1; i <= 4; ++i) cores[i]->id = i;
  m3.k.rec = true;
  ev("reset", 0);
  std::vector<std::thread> th;
  for (int t = 1; t < NT; ++t) {
    sl[t].busy = true;
    th.emplace_back(body, t);
    std::unique_lock<std::mutex> g(bm);
    bc.wait(g, [&] { return !sl[t].busy; });
  }
  int how = how0;
  for (std::size_t i = 0; i < w.size();) {
    cmd c;
    int t = static_cast<int>(toi(w[i + 1]));
    if (w[i] == "open") {
      c.k = cmd::open;
      c.a = static_cast<int>(toi(w[i + 2]));
      c.c = static_cast<int>(toi(w[i + 3]));
      c.how = how++;
      i += 4;
    } else if (w[i] == "leave") {
      c.k = cmd::leave;
      c.a = static_cast<int>(toi(w[i + 2]));
      i += 3;
    } else {
      c.k = w[i] == "grant" ? cmd::grant : w[i] == "fail" ? cmd::fail : cmd::thrw;
      i += 2;
    }
    // a command that the code is not ready for: the log already tells why
    bool ask = c.k == cmd::grant || c.k == cmd::fail;
    if (ask != sl[t].asking) { ev("lost", t); return 0; }
    if (c.k == cmd::grant && !cores[sl[t].want]->free_for(t)) { ev("lost", t); return 0; }
    give(t, c);
  }
  // drain
  bool deadlock = false;
  for (bool more = true; more && !deadlock;) {
    more = false;
    bool moved = false;
    for (int t = 1; t < NT; ++t) {
      cmd c;
      if (sl[t].asking) {
        more = true;
        if (!cores[sl[t].want]->free_for(t)) continue;
        c.k = cmd::grant;
      } else if (sl[t].depth > 0) {
        more = true;
        c.k = cmd::leave;
        c.a = sl[t].depth;
      } else {
        continue;
      }
      give(t, c);
      moved = true;
    }
    if (more && !moved) {
      deadlock = true;
#if EXC
      for (int t = 1; t < NT; ++t)
        if (sl[t].asking) {
          cmd c;
          c.k = cmd::fail;
          give(t, c);
          deadlock = false;
          break;
        }
#endif
    }
  }
  if (deadlock) std::_Exit(0);      // the schedule itself deadlocks; without exceptions there is no way out
  ev("done", 0);
  cmd q;
  q.k = cmd::quit;
  for (int t = 1; t < NT; ++t) give(t, q);
  for (auto& x : th) x.join();
  return 0;
}

// ---- free running threads over a mutex of the platform
template <typename Raw, bool Rec>
struct timed {
  Raw raw;
  int id = 0;
  void lock();
  void unlock();
};
std::atomic<long> ticket{0};
struct rec_ev { long at; const char* op; int m; int k; };
thread_local std::vector<rec_ev>* mine = nullptr;
void note(const char* op, int m, int k = 0) { mine->push_back(rec_ev{ticket++, op, m, k}); }
template <typename Raw, bool Rec>
void timed<Raw, Rec>::lock() {
  note("lock", id);
  raw.lock();
  note("acq", id);
}
template <typename Raw, bool Rec>
void timed<Raw, Rec>::unlock() {
  note("unlock", id);
  raw.unlock();
}
struct spin {
  std::atomic_flag f = ATOMIC_FLAG_INIT;
  void lock() { while (f.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); }
  void unlock() { f.clear(std::memory_order_release); }
};
timed<std::mutex, false> f1;
timed<spin, false> f2;
timed<std::recursive_mutex, true> f3;
long shared1, shared2, shared3;    // unprotected but for the guards

template <typename F>
void guarded(int m, const F& f) {
  note("open", m, 1);
  if (m == 1) {
    embedded::lock_guard<timed<std::mutex, false>> g(f1);
    note("body", 1);
    ++shared1;
    f();
    note("leave", 0, 1);
  } else if (m == 2) {
    embedded::lock_guard<timed<spin, false>> g(f2);
    note("body", 2);
    ++shared2;
    f();
    note("leave", 0, 1);
  } else {
    embedded::lock_guard<timed<std::recursive_mutex, true>> g(f3);
    note("body", 3);
    ++shared3;
    f();
    note("leave", 0, 1);
  }
}

int run_free(int nthreads, int rounds, unsigned seed) {
  f1.id = 1; f2.id = 2; f3.id = 3;
  std::vector<std::vector<rec_ev>> logs(nthreads);
  std::vector<std::thread> th;
  std::atomic<int> ready{0};
  for (int t = 0; t < nthreads; ++t)
    th.emplace_back([&, t] {
      mine = &logs[t];
      unsigned s = seed * 7919u + static_cast<unsigned>(t) * 104729u + 1;
      auto rnd = [&](unsigned n) { s = s * 1664525u + 1013904223u; return (s >> 16) % n; };
      ++ready;
      while (ready < nthreads) {}
      for (int i = 0; i < rounds; ++i) {
        switch (rnd(6)) {
          case 0: guarded(1, [] {}); break;
          case 1: guarded(2, [] {}); break;
          case 2: guarded(3, [] {}); break;
          case 3: guarded(3, [] { guarded(3, [] {}); }); break;
          case 4: guarded(1, [] { guarded(2, [] { guarded(3, [] {}); }); }); break;
          default: guarded(2, [&] { if (rnd(2)) std::this_thread::yield(); }); break;
        }
      }
    });
  for (auto& x : th) x.join();
  std::vector<std::pair<long, std::pair<int, rec_ev>>> all;
  long opens[4] = {0, 0, 0, 0};
  for (int t = 0; t < nthreads; ++t)
    for (auto& e : logs[t]) {
      all.push_back({e.at, {t + 1, e}});
      if (!std::strcmp(e.op, "open")) ++opens[e.m];
    }
  std::vector<std::pair<int, rec_ev>> sorted(all.size());
  for (auto& x : all) sorted[static_cast<std::size_t>(x.first)] = x.second;
  ev("reset", 0);
  for (auto& x : sorted) {
    const rec_ev& e = x.second;
    if (!std::strcmp(e.op, "leave")) ev(e.op, x.first, "k", e.k);
    else if (!std::strcmp(e.op, "open")) ev(e.op, x.first, "m", e.m, "c", 1);
    else ev(e.op, x.first, "m", e.m);
  }
  ev("done", 0);
  // increments under the guards are not lost
  jrec r;
  r.str("op", "sums");
  r.arr("want", {opens[1], opens[2], opens[3]});
  r.arr("got", {shared1, shared2, shared3});
  r.emit();
  return 0;
}

}  // namespace

int main(int argc, char** argv) {
  if (argc > 4 && std::string(argv[1]) == "free")
    return run_free(std::atoi(argv[2]), std::atoi(argv[3]), static_cast<unsigned>(std::atoi(argv[4])));
  {
    typedef embedded::lock_guard<plain> G;
    jrec r;
    r.str("op", "type");
    r.num("cc", std::is_copy_constructible<G>::value);
    r.num("ca", std::is_copy_assignable<G>::value);
    r.emit();
  }
  std::string line;
  int how = 0;
  while (read_line(line)) {
    auto w = words(line.c_str());
    std::fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      alarm(60);
      session(w, how);
      std::fflush(stdout);
      std::_Exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (st != 0) {
      std::fprintf(stderr, "error: a session ended abnormally (%d): %s\n", st, line.c_str());
      return 3;
    }
    how += 3;
  }
  return 0;
}
