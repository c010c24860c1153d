// Ledger of instrumented objects and of dynamic memory, shared by the drivers.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>

#if defined(__cpp_exceptions)
#define EXC 1
#else
#define EXC 0
#endif

namespace led {
// fixed-size table: the ledger itself must not allocate
static const int N = 4096;
static const void* tab[N];
static int used = 0;
static long long err = 0, val = 0, copy = 0, move = 0, assign = 0, dtor = 0;
static long long fail_in = 0;                    // >0: the fail_in-th construction from now throws
static long long last_fail = 0;
struct failure { int code; };

inline int find(const void* p) {
  for (int i = 0; i < used; ++i) if (tab[i] == p) return i;
  return -1;
}
inline void born(const void* p) {
  if (find(p) >= 0) { ++err; return; }
  if (used == N) std::abort();
  tab[used++] = p;
}
inline void dead(const void* p) {
  int i = find(p);
  ++dtor;
  if (i < 0) { ++err; return; }
  tab[i] = tab[--used];
}
inline void need(const void* p) { if (find(p) < 0) ++err; }
inline void may_fail() {
#if EXC
  if (fail_in > 0 && --fail_in == 0) { ++last_fail; throw failure{7}; }
#endif
}
inline long long inside(const void* b, std::size_t n) {
  long long r = 0;
  const char* lo = static_cast<const char*>(b);
  for (int i = 0; i < used; ++i) {
    const char* p = static_cast<const char*>(tab[i]);
    if (!(p < lo) && p < lo + n) ++r;
  }
  return r;
}
}  // namespace led

#ifdef COUNT_ALLOCS
namespace led {
static bool counting = false;
static long long allocs = 0;
}
extern "C" void* __libc_malloc(std::size_t);
extern "C" void* __libc_calloc(std::size_t, std::size_t);
extern "C" void* __libc_realloc(void*, std::size_t);
extern "C" void* malloc(std::size_t n) { if (led::counting) ++led::allocs; return __libc_malloc(n); }
extern "C" void* calloc(std::size_t n, std::size_t m) { if (led::counting) ++led::allocs; return __libc_calloc(n, m); }
extern "C" void* realloc(void* p, std::size_t n) { if (led::counting) ++led::allocs; return __libc_realloc(p, n); }
#endif
