// Calls embedded::varint on scripted inputs and logs what comes back.
#include <cstdint>
#include <deque>
#include <iterator>
#include <list>
#include <type_traits>
#include <vector>
#include <embedded/varint.h>
#include "json_out.h"

using embedded::varint;
typedef std::vector<long long> ints;
typedef std::vector<std::uint8_t> bytes;
static const int CAN = 165;

struct matrix {
  std::string s = "[";
  bool first = true;
  void row(ints const& r) {
    if (!first) s += ",";
    first = false;
    s += "[";
    for (size_t i = 0; i < r.size(); ++i) { if (i) s += ","; s += std::to_string(r[i]); }
    s += "]";
  }
  void into(jrec& j, const char* k) { j.key(k); j.s += s + "]"; }
};

template <typename T> static ints limbs(T v) {
  std::uint64_t u = static_cast<std::uint64_t>(static_cast<typename std::make_unsigned<T>::type>(v));
  ints r;
  for (int i = 0; i < 4; ++i) r.push_back((u >> (16 * i)) & 0xffff);
  return r;
}

// an iterator over bytes that records how far it was read
struct counting {
  typedef std::forward_iterator_tag iterator_category;
  typedef std::uint8_t value_type;
  typedef std::ptrdiff_t difference_type;
  typedef std::uint8_t const* pointer;
  typedef std::uint8_t const& reference;
  bytes const* b;
  std::size_t i;
  static long long maxread, bad;
  std::uint8_t const& operator*() const {
    static std::uint8_t const poison = 0x80;
    if (i >= b->size()) { ++bad; maxread = static_cast<long long>(i) + 1; return poison; }
    if (static_cast<long long>(i) + 1 > maxread) maxread = i + 1;
    return (*b)[i];
  }
  counting& operator++() { ++i; return *this; }
  counting operator++(int) { counting t(*this); ++i; return t; }
  bool operator==(counting const& o) const { return i == o.i; }
  bool operator!=(counting const& o) const { return i != o.i; }
};
long long counting::maxread, counting::bad;

template <typename T> struct ops {
  static const bool sg = std::is_signed<T>::value;
  typedef typename std::make_unsigned<T>::type U;
  typedef typename std::make_signed<T>::type S;

  static void head(jrec& j, const char* op, T v) {
    j.str("op", op); j.num("w", 8 * sizeof(T)); j.num("s", sg); j.arr("v", limbs(v));
  }
  static ints outs(std::uint8_t const* p, long long n) { ints r; for (long long i = 0; i < n; ++i) r.push_back(p[i]); return r; }

  static void enc(T v) {
    jrec j;
    head(j, "enc", v);
    j.num("sz", varint::size(v));
    matrix out;
    ints pos;
    int can = 1;
    const int N = 32, PRE = 4;
    { // unbounded, pointer
      bytes b(N, CAN);
      std::uint8_t* e = varint::encode(v, b.data() + PRE);
      long long n = e - (b.data() + PRE);
      pos.push_back(n);
      if (n < 0 || n > 20) n = 0;
      out.row(outs(b.data() + PRE, n));
      for (int i = 0; i < N; ++i) if ((i < PRE || i >= PRE + n) && b[i] != CAN) can = 0;
    }
    { // bounded, pointer, more than enough room
      bytes b(N, CAN);
      std::uint8_t* e = varint::encode(v, b.data() + PRE, b.data() + N);
      long long n = e - (b.data() + PRE);
      pos.push_back(n);
      if (n < 0 || n > 20) n = 0;
      out.row(outs(b.data() + PRE, n));
      for (int i = 0; i < N; ++i) if ((i < PRE || i >= PRE + n) && b[i] != CAN) can = 0;
    }
    { // vector iterators
      bytes b(N, CAN);
      bytes::iterator e = varint::encode(v, b.begin() + PRE);
      long long n = e - (b.begin() + PRE);
      pos.push_back(n);
      if (n < 0 || n > 20) n = 0;
      out.row(outs(b.data() + PRE, n));
      for (int i = 0; i < N; ++i) if ((i < PRE || i >= PRE + n) && b[i] != CAN) can = 0;
    }
    { // list iterators, bounded
      std::list<std::uint8_t> b(N, CAN);
      std::list<std::uint8_t>::iterator e = varint::encode(v, b.begin(), b.end());
      long long n = std::distance(b.begin(), e);
      pos.push_back(n);
      bytes c(b.begin(), b.end());
      if (n < 0 || n > 20) n = 0;
      out.row(outs(c.data(), n));
      for (int i = 0; i < N; ++i) if (i >= n && c[i] != CAN) can = 0;
    }
    { // inserting
      bytes b(2, 7);
      varint::encode(v, std::back_inserter(b));
      if (b.size() < 2 || b[0] != 7 || b[1] != 7) can = 0;
      out.row(outs(b.data() + 2, static_cast<long long>(b.size()) - 2));
      pos.push_back(static_cast<long long>(b.size()) - 2);
      std::deque<std::uint8_t> d;
      varint::encode(v, std::back_inserter(d));
      bytes c(d.begin(), d.end());
      out.row(outs(c.data(), c.size()));
    }
    out.into(j, "out");
    j.arr("pos", pos);
    j.num("can", can);
    j.emit();
  }

  static void bnd(T v, int room) {
    jrec j;
    head(j, "bnd", v);
    j.num("room", room);
    matrix buf;
    ints pos;
    const int EXTRA = 6;
    // of large buffers only the start is logged, and whether the rest was left alone
    int far = 1;
    auto window = [&](std::uint8_t const* p, long long n) {
      long long k = n < 40 ? n : 40;
      buf.row(outs(p, k));
      for (; k < n; ++k) if (p[k] != CAN) far = 0;
    };
    {
      bytes b(room + EXTRA, CAN);
      std::uint8_t* e = varint::encode(v, b.data(), b.data() + room);
      pos.push_back(e - b.data());
      window(b.data(), b.size());
    }
    {
      std::deque<std::uint8_t> b(room + EXTRA, CAN);
      std::deque<std::uint8_t>::iterator e = varint::encode(v, b.begin(), b.begin() + room);
      pos.push_back(e - b.begin());
      bytes c(b.begin(), b.end());
      window(c.data(), c.size());
    }
    { // backwards
      bytes b(room + EXTRA, CAN);
      bytes::reverse_iterator e = varint::encode(v, b.rbegin(), b.rbegin() + room);
      pos.push_back(e - b.rbegin());
      bytes c(b.rbegin(), b.rend());
      window(c.data(), c.size());
    }
    { // exact allocation: anything written past it is visible to a sanitizer
      std::uint8_t* p = new std::uint8_t[room];
      for (int i = 0; i < room; ++i) p[i] = CAN;
      std::uint8_t* e = varint::encode(v, p, p + room);
      pos.push_back(e - p);
      window(p, room);
      delete[] p;
    }
    {
      std::list<std::uint8_t> b(room + EXTRA, CAN);
      std::list<std::uint8_t>::iterator end = b.begin();
      std::advance(end, room);
      std::list<std::uint8_t>::iterator e = varint::encode(v, b.begin(), end);
      pos.push_back(std::distance(b.begin(), e));
      bytes c(b.begin(), b.end());
      window(c.data(), c.size());
    }
    buf.into(j, "buf");
    j.num("far", far);
    j.arr("pos", pos);
    j.emit();
  }

  static void dec(bytes const& b, matrix& m) {
    T v = T();
    counting first{&b, 0}, last{&b, b.size()};
    counting::maxread = 0;
    counting::bad = 0;
    counting e = varint::decode(v, first, last);
    ints r{static_cast<long long>(8 * sizeof(T)), sg, static_cast<long long>(e.i), counting::maxread};
    for (auto x : limbs(v)) r.push_back(x);
    // the same through pointers into an exact allocation
    std::uint8_t* p = new std::uint8_t[b.size()];
    for (size_t i = 0; i < b.size(); ++i) p[i] = b[i];
    T v2 = T();
    std::uint8_t const* cp = p;
    std::uint8_t const* pe = varint::decode(v2, cp, cp + b.size());
    ints r2{static_cast<long long>(8 * sizeof(T)), sg, static_cast<long long>(pe - cp), 0};
    for (auto x : limbs(v2)) r2.push_back(x);
    delete[] p;
    m.row(r);
    m.row(r2);
  }

  static void zz(T v) {
    jrec j;
    head(j, "zz", v);
    S s = static_cast<S>(v);
    U u = static_cast<U>(v);
    j.arr("f", limbs(varint::zig_zag_encode(s)));
    j.arr("u", limbs(varint::zig_zag_decode(varint::zig_zag_encode(s))));
    j.arr("g", limbs(varint::zig_zag_decode(u)));
    j.arr("h", limbs(varint::zig_zag_encode(varint::zig_zag_decode(u))));
    j.emit();
  }
};

static std::uint64_t hex(std::string const& s) { return std::strtoull(s.c_str(), nullptr, 16); }

typedef unsigned long long ull_t;
typedef long long ll_t;
typedef unsigned long ul_t;
#define TYPES(X) X(u8, std::uint8_t) X(i8, std::int8_t) X(u16, std::uint16_t) X(i16, std::int16_t) X(u32, std::uint32_t) \
  X(i32, std::int32_t) X(u64, std::uint64_t) X(i64, std::int64_t) X(ch, char) X(ull, ull_t) X(ll, ll_t) \
  X(ul, ul_t) X(c16, char16_t) X(c32, char32_t)

struct item { std::string t, h, t2; };

static long long put(std::string const& t, std::uint64_t x, bytes& out, ints& v, long long& w, long long& s) {
#define X(n, T) if (t == #n) { T y = static_cast<T>(x); size_t k = out.size(); varint::encode(y, std::back_inserter(out)); v = limbs(y); w = 8 * sizeof(T); s = std::is_signed<T>::value; return out.size() - k; }
  TYPES(X)
#undef X
  std::abort();
}
static long long take(std::string const& t, bytes const& b, size_t at, ints& v, long long& w) {
#define X(n, T) if (t == #n) { T y = T(); auto f = b.begin() + at; auto e = varint::decode(y, f, b.end()); v = limbs(y); w = 8 * sizeof(T); return e - f; }
  TYPES(X)
#undef X
  std::abort();
}

static void stream(std::vector<std::string> const& w) {
  bytes b;
  matrix in, out;
  std::vector<item> items;
  std::vector<ints> rows;
  std::string tail = w[1];
  for (size_t i = 2; i + 2 < w.size(); i += 3) items.push_back(item{w[i], w[i + 1], w[i + 2]});
  for (auto& it : items) {
    ints v; long long wd, sg;
    long long n = put(it.t, hex(it.h), b, v, wd, sg);
    ints r{wd, sg, 0};
    r.insert(r.end(), v.begin(), v.end());
    r.push_back(n);
    rows.push_back(r);
  }
  ints tl;
  for (size_t i = 0; i + 1 < tail.size() + 1 && tail != "-"; i += 2) { b.push_back(static_cast<std::uint8_t>(hex(tail.substr(i, 2)))); tl.push_back(b.back()); }
  size_t at = 0;
  for (size_t i = 0; i < items.size(); ++i) {
    ints v; long long w2;
    long long n = take(items[i].t2, b, at, v, w2);
    if (n < 0 || at + n > b.size()) n = 0;
    rows[i][2] = w2;
    in.row(rows[i]);
    ints r{n};
    r.insert(r.end(), v.begin(), v.end());
    out.row(r);
    at += n;
  }
  ints rest;
  for (; at < b.size(); ++at) rest.push_back(b[at]);
  jrec j;
  j.str("op", "str");
  in.into(j, "i");
  out.into(j, "o");
  j.arr("tail", tl);
  j.arr("rest", rest);
  j.emit();
}

int main() {
  std::string line;
  while (read_line(line)) {
    std::vector<std::string> w = words(line.c_str());
    if (w.empty()) continue;
    if (w[0] == "dec") {
      bytes b;
      ints bb;
      for (size_t i = 1; i < w.size(); ++i) { b.push_back(static_cast<std::uint8_t>(toi(w[i]))); bb.push_back(b.back()); }
      matrix m;
#define X(n, T) ops<T>::dec(b, m);
      TYPES(X)
#undef X
      jrec j;
      j.str("op", "dec");
      j.arr("b", bb);
      m.into(j, "r");
      j.emit();
    } else if (w[0] == "str") {
      stream(w);
    } else {
      bool ok = false;
#define X(n, T) if (w[1] == #n) { ok = true; T v = static_cast<T>(hex(w[2])); \
      if (w[0] == "enc") ops<T>::enc(v); else if (w[0] == "bnd") ops<T>::bnd(v, toi(w[3])); else if (w[0] == "zz") ops<T>::zz(v); else ok = false; }
      TYPES(X)
#undef X
      if (!ok) { std::fprintf(stderr, "bad command %s\n", line.c_str()); return 3; }
    }
  }
  return 0;
}
