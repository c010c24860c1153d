// Stores callables of every size and alignment in wrappers; the table of instances is generated (STORAGE_ROWS).
#pragma once
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <utility>
#include <embedded/function.h>
#include "ledger.h"
#include "json_out.h"

static unsigned char g_bytes[256];
static void const* g_this;
static int g_ok;

template <int Size, int Al> struct alignas(Al) blob {
  unsigned char b[Size];
  explicit blob(int seed) { for (int i = 0; i < Size; ++i) b[i] = static_cast<unsigned char>(seed + 7 * i + 1); }
  int operator()(int seed) const {
    g_this = this;
    g_ok = 1;
    for (int i = 0; i < Size; ++i) if (b[i] != static_cast<unsigned char>(seed + 7 * i + 1)) g_ok = 0;
    return seed;
  }
};

static void alloc_on() {
#ifdef COUNT_ALLOCS
  led::allocs = 0; led::counting = true;
#endif
}
static long long alloc_off() {
#ifdef COUNT_ALLOCS
  led::counting = false;
  return led::allocs;
#else
  return 0;
#endif
}

template <typename F> struct slot { unsigned char lo[64]; alignas(64) F f; alignas(64) unsigned char hi[64]; };

template <typename S> struct sigcall;
template <typename F> static int docall(F& f, int s, std::false_type) { return f(s); }
template <typename F> static int docall(F const& f, int s, std::true_type) { return f(s); }

template <typename Sig, bool K, int Cap, int A, int Size, int Al> static void row() {
  typedef embedded::function<Sig, Cap, A> F;
  typedef blob<Size, Al> C;
  typedef std::integral_constant<bool, K> k;
  int inside = 1, bytes = 1, mod = 0, guard = 1;
  slot<F> a, b;
  std::memset(a.lo, 0x5A, 64); std::memset(a.hi, 0x5A, 64); std::memset(b.lo, 0x5A, 64); std::memset(b.hi, 0x5A, 64);
  auto probe = [&](F& f, int seed) {
    g_ok = 0; g_this = nullptr;
    docall(f, seed, k());
    const char* p = static_cast<const char*>(g_this);
    const char* lo = reinterpret_cast<const char*>(&f);
    if (p < lo || p + Size > lo + sizeof(F)) inside = 0;
    if (reinterpret_cast<std::uintptr_t>(p) % Al) mod = 1;
    if (!g_ok) bytes = 0;
    for (int i = 0; i < 64; ++i) if (a.lo[i] != 0x5A || a.hi[i] != 0x5A || b.lo[i] != 0x5A || b.hi[i] != 0x5A) guard = 0;
  };
  C c(3);
  alloc_on();
  {
    F t(c);                               // at whatever address the stack gives it
    probe(t, 3);
    a.f = std::move(t);
    probe(a.f, 3);
    F u(std::move(a.f));
    probe(u, 3);
    a.f = C(9);
    b.f = std::move(u);
    probe(b.f, 3);
    std::swap(a.f, b.f);
    probe(a.f, 3);
    probe(b.f, 9);
    b.f = c;
    probe(b.f, 3);
    b.f = nullptr;
    probe(a.f, 3);
    // an array of wrappers: every element aligned
    F arr[3] = {F(C(4)), F(C(5)), F(C(6))};
    for (int i = 0; i < 3; ++i) probe(arr[i], 4 + i);
    arr[0] = std::move(arr[2]);
    probe(arr[0], 6);
    probe(arr[1], 5);
  }
  long long al = alloc_off();
  int nothrow = std::is_nothrow_default_constructible<F>::value && std::is_nothrow_move_constructible<F>::value &&
                std::is_nothrow_move_assignable<F>::value && std::is_nothrow_destructible<F>::value &&
                std::is_nothrow_constructible<F, std::nullptr_t>::value && std::is_nothrow_constructible<F, C>::value &&
                std::is_nothrow_constructible<F, C&>::value && std::is_nothrow_assignable<F&, std::nullptr_t>::value &&
                std::is_nothrow_assignable<F&, C>::value;
  jrec j;
  j.num("cap", Cap); j.num("A", A); j.num("size", Size); j.num("al", Al); j.num("inside", inside); j.num("mod", mod);
  j.num("bytes", bytes); j.num("alloc", al); j.num("nothrow", nothrow); j.num("guard", guard);
  j.emit();
}
