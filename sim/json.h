// Minimal JSON value.  Strings are byte strings: bytes >= 0x80 and control
// characters are written as \u00XX, and read back as one byte.
#pragma once
#include <string>
#include <vector>
#include <list>
#include <utility>
#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#include <cstring>
struct J {
  enum T { Null, Bool, Int, Str, Arr, Obj } t = Null;
  long long i = 0;
  std::string s;
  std::vector<J> a;
  std::list<std::pair<std::string, J>> o;  // insertion keeps references valid
  J() {}
  J(bool b) : t(Bool), i(b) {}
  J(int v) : t(Int), i(v) {}
  J(long v) : t(Int), i(v) {}
  J(long long v) : t(Int), i(v) {}
  J(unsigned v) : t(Int), i(v) {}
  J(unsigned long v) : t(Int), i((long long)v) {}
  J(const char* c) : t(Str), s(c) {}
  J(const std::string& c) : t(Str), s(c) {}
  static J arr() { J j; j.t = Arr; return j; }
  static J obj() { J j; j.t = Obj; return j; }
  bool is_null() const { return t == Null; }
  J& operator[](const std::string& k) {
    if (t == Null) t = Obj;
    for (auto& p : o) if (p.first == k) return p.second;
    o.emplace_back(k, J());
    return o.back().second;
  }
  J& operator[](const char* k) { return (*this)[std::string(k)]; }
  const J& at(const std::string& k) const {
    static const J none;
    for (auto& p : o) if (p.first == k) return p.second;
    return none;
  }
  bool has(const std::string& k) const {
    for (auto& p : o) if (p.first == k) return true;
    return false;
  }
  long long num(const std::string& k, long long d = 0) const { const J& v = at(k); return (v.t == Int || v.t == Bool) ? v.i : d; }
  std::string str(const std::string& k, const std::string& d = "") const { const J& v = at(k); return v.t == Str ? v.s : d; }
  void push(const J& v) { if (t == Null) t = Arr; a.push_back(v); }
  size_t size() const { return t == Arr ? a.size() : o.size(); }
  static void q(std::string& r, const std::string& s) {
    r += '"';
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if (c == '\n') r += "\\n";
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += (char)c;
    }
    r += '"';
  }
  void dump(std::string& r) const {
    switch (t) {
      case Null: r += "null"; break;
      case Bool: r += i ? "true" : "false"; break;
      case Int: r += std::to_string(i); break;
      case Str: q(r, s); break;
      case Arr: { r += '['; bool f = true; for (auto& v : a) { if (!f) r += ','; f = false; v.dump(r); } r += ']'; break; }
      case Obj: { r += '{'; bool f = true; for (auto& p : o) { if (!f) r += ','; f = false; q(r, p.first); r += ':'; p.second.dump(r); } r += '}'; break; }
    }
  }
  std::string dump() const { std::string r; dump(r); return r; }
  static J parse(const std::string& s) { size_t p = 0; J j = pv(s, p); return j; }
private:
  static void ws(const std::string& s, size_t& p) { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) ++p; }
  static std::string ps(const std::string& s, size_t& p) {
    std::string r; ++p;
    while (p < s.size() && s[p] != '"') {
      if (s[p] == '\\') {
        ++p;
        char c = s.at(p++);
        if (c == 'n') r += '\n'; else if (c == 't') r += '\t'; else if (c == 'r') r += '\r';
        else if (c == 'b') r += '\b'; else if (c == 'f') r += '\f';
        else if (c == 'u') { r += (char)strtol(s.substr(p, 4).c_str(), 0, 16); p += 4; }
        else r += c;
      } else r += s[p++];
    }
    if (p >= s.size()) throw std::runtime_error("json: string");
    ++p; return r;
  }
  static J pv(const std::string& s, size_t& p) {
    ws(s, p);
    if (p >= s.size()) throw std::runtime_error("json: eof");
    if (s[p] == '{') {
      J j = obj(); ++p; ws(s, p);
      if (s[p] == '}') { ++p; return j; }
      for (;;) { ws(s, p); std::string k = ps(s, p); ws(s, p); ++p; j.o.emplace_back(k, pv(s, p)); ws(s, p); if (s.at(p++) == '}') return j; }
    }
    if (s[p] == '[') {
      J j = arr(); ++p; ws(s, p);
      if (s[p] == ']') { ++p; return j; }
      for (;;) { j.a.push_back(pv(s, p)); ws(s, p); if (s.at(p++) == ']') return j; }
    }
    if (s[p] == '"') return J(ps(s, p));
    if (!s.compare(p, 4, "true")) { p += 4; return J(true); }
    if (!s.compare(p, 5, "false")) { p += 5; return J(false); }
    if (!s.compare(p, 4, "null")) { p += 4; return J(); }
    char* e; long long v = strtoll(s.c_str() + p, &e, 10);
    if (e == s.c_str() + p) throw std::runtime_error("json: value");
    p = e - s.c_str(); 
    return J(v);
  }
};
