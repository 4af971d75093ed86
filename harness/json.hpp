// Minimal JSON reader used by the conformance driver.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

struct J {
  enum K { Null, Bool, Int, Str, Arr, Obj } k = Null;
  bool b = false;
  long long i = 0;
  std::string s;
  std::vector<J> a;
  std::map<std::string, J> o;
  bool has(const std::string &n) const { return k == Obj && o.count(n); }
  const J &operator[](const std::string &n) const {
    auto it = o.find(n);
    if (it == o.end())
      throw std::logic_error("driver: missing field " + n);
    return it->second;
  }
  const J &operator[](size_t n) const { return a.at(n); }
  size_t size() const { return a.size(); }
  long long num() const {
    if (k == Int) return i;
    if (k == Bool) return b;
    if (k == Str) return atoll(s.c_str());
    throw std::logic_error("driver: number expected");
  }
  const std::string &str() const { return s; }
  bool flag(const std::string &n) const { return has(n) && (*this)[n].num() != 0; }
};

struct JParse {
  const char *p, *e;
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
  static void utf8(std::string &s, unsigned c) {
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
  }
  unsigned hex4() { unsigned v = std::stoul(std::string(p, p + 4), nullptr, 16); p += 4; return v; }
  J val() {
    ws();
    J r;
    if (p >= e) throw std::logic_error("driver: json eof");
    if (*p == '{') {
      r.k = J::Obj; ++p; ws();
      if (*p == '}') { ++p; return r; }
      for (;;) { ws(); J n = val(); ws(); if (*p++ != ':') throw std::logic_error("json :"); r.o[n.s] = val(); ws(); if (*p == ',') { ++p; continue; } if (*p++ == '}') return r; throw std::logic_error("json }"); }
    }
    if (*p == '[') {
      r.k = J::Arr; ++p; ws();
      if (*p == ']') { ++p; return r; }
      for (;;) { r.a.push_back(val()); ws(); if (*p == ',') { ++p; continue; } if (*p++ == ']') return r; throw std::logic_error("json ]"); }
    }
    if (*p == '"') {
      r.k = J::Str; ++p;
      while (*p != '"') {
        if (*p == '\\') {
          ++p;
          switch (*p) {
          case 'n': r.s += '\n'; ++p; break;
          case 't': r.s += '\t'; ++p; break;
          case 'r': r.s += '\r'; ++p; break;
          case 'b': r.s += '\b'; ++p; break;
          case 'f': r.s += '\f'; ++p; break;
          case 'u': { ++p; unsigned c = hex4(); if (c >= 0xD800 && c < 0xDC00 && p[0] == '\\' && p[1] == 'u') { p += 2; unsigned d = hex4(); c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00); } utf8(r.s, c); break; }
          default: r.s += *p++; 
          }
        } else r.s += *p++;
      }
      ++p; return r;
    }
    if (*p == 't') { p += 4; r.k = J::Bool; r.b = true; return r; }
    if (*p == 'f') { p += 5; r.k = J::Bool; return r; }
    if (*p == 'n') { p += 4; return r; }
    char *q; r.k = J::Int; r.i = strtoll(p, &q, 10);
    if (q == p) throw std::logic_error("driver: bad json");
    p = q; return r;
  }
};
inline J jparse(const std::string &s) { JParse q{s.data(), s.data() + s.size()}; return q.val(); }

inline std::string jstr(const std::string &s) {
  std::string r = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c < 0x20 || c >= 0x7f) { snprintf(buf, 8, "\\u%04x", c); r += buf; }
    else r += char(c);
  }
  return r + "\"";
}
