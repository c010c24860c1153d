// Tiny output helpers shared by the drivers (C++11, no exceptions, no RTTI needed).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

struct jrec {
  std::string s;
  bool first = true;
  jrec() { s = "{"; }
  void key(const char* k) {
    if (!first) s += ",";
    first = false;
    s += "\""; s += k; s += "\":";
  }
  void num(const char* k, long long v) { key(k); s += std::to_string(v); }
  void str(const char* k, const std::string& v) { key(k); s += "\"" + v + "\""; }
  void arr(const char* k, const std::vector<long long>& v) {
    key(k);
    s += "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
      if (i) s += ",";
      s += std::to_string(v[i]);
    }
    s += "]";
  }
  void emit() {
    s += "}\n";
    std::fwrite(s.data(), 1, s.size(), stdout);
    std::fflush(stdout);
  }
};

inline std::vector<std::string> words(const char* line) {
  std::vector<std::string> w;
  std::string cur;
  for (const char* p = line; *p; ++p) {
    if (*p == ' ' || *p == '\n' || *p == '\t') {
      if (!cur.empty()) w.push_back(cur);
      cur.clear();
    } else {
      cur += *p;
    }
  }
  if (!cur.empty()) w.push_back(cur);
  return w;
}

inline bool read_line(std::string& out) {
  out.clear();
  int c;
  bool any = false;
  while ((c = std::getchar()) != EOF) {
    any = true;
    if (c == '\n') break;
    out += static_cast<char>(c);
  }
  return any;
}

inline long long toi(const std::string& s) { return std::atoll(s.c_str()); }
