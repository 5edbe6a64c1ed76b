#include "model.h"
#include <expat.h>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace model {
namespace {
struct St { Doc* d; int depth = 0; Entry* cur = nullptr; int base; };
void st(void* u, const char* el, const char** at) {
  St& s = *(St*)u;
  int dep = s.depth++ - s.base;
  if (dep == 0) { s.d->root = el; return; }
  if (dep == 1) {
    std::string e = el;
    if (e != "DartMeasurement" && e != "DartMeasurementFile") { s.d->odd = true; s.cur = nullptr; return; }
    s.d->es.emplace_back();
    Entry& x = s.d->es.back(); s.cur = &x; x.elem = e;
    for (int i = 0; at[i]; i += 2) {
      std::string k = at[i];
      if (k == "name") { x.name = at[i + 1]; x.has_name = true; }
      else if (k == "type") { x.type = at[i + 1]; x.has_type = true; }
      else if (k == "encoding" && e == "DartMeasurement") x.enc = at[i + 1];
      else if (k == "compression" && e == "DartMeasurement") x.comp = at[i + 1];
      else x.odd = true;
    }
    return;
  }
  if (s.cur) s.cur->odd = true;
  s.d->odd = true;
}
void en(void* u, const char*) { St& s = *(St*)u; --s.depth; if (s.depth - s.base == 1) s.cur = nullptr; }
void ch(void* u, const char* c, int n) { St& s = *(St*)u; if (s.depth - s.base == 2 && s.cur) s.cur->content.append(c, n); }
Doc run(const std::string& bytes, int) {
  Doc d; St s; s.d = &d; s.base = 0;
  // entries move while the vector grows: reserve by an upper bound
  size_t n = 0; for (char c : bytes) if (c == '<') ++n;
  d.es.reserve(n + 1);
  XML_Parser p = XML_ParserCreate("US-ASCII");
  XML_SetElementHandler(p, st, en); XML_SetCharacterDataHandler(p, ch); XML_SetUserData(p, &s);
  d.ok = XML_Parse(p, bytes.data(), (int)bytes.size(), 1) == XML_STATUS_OK;
  if (!d.ok) d.err = std::string(XML_ErrorString(XML_GetErrorCode(p))) + " at line " + std::to_string(XML_GetCurrentLineNumber(p));
  XML_ParserFree(p);
  if (d.ok && d.root != "output") d.odd = true;
  return d;
}
}
Doc parse_doc(const std::string& b) { return run(b, 0); }
Doc parse_fragment(const std::string& b) { return run("<output>" + b + "</output>", 0); }

bool b64_decode(const std::string& s, std::string& out) {
  out.clear();
  int nb = 0, pad = 0; unsigned v = 0;
  for (unsigned char c : s) {
    if (c == ' ' || (c >= 8 && c <= 13)) { continue; }
    int x;
    if (c >= 'A' && c <= 'Z') x = c - 'A'; else if (c >= 'a' && c <= 'z') x = c - 'a' + 26; else if (c >= '0' && c <= '9') x = c - '0' + 52;
    else if (c == '+') x = 62; else if (c == '/') x = 63; else if (c == '=') x = -1; else return false;
    if (x < 0) { if (nb < 2) return false; ++pad; ++nb; v <<= 6; }
    else { if (pad) return false; v = v << 6 | x; ++nb; }
    if (nb == 4) {
      out += (char)(v >> 16); if (pad < 2) out += (char)(v >> 8); if (pad < 1) out += (char)v;
      if (pad > 2) return false;
      v = 0; nb = 0; if (pad) pad = 100;
    }
  }
  return nb == 0;
}
std::string b64_encode(const std::string& s, int line) {
  static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r; int n = 0;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = (unsigned char)s[i] << 16; int k = 1;
    if (i + 1 < s.size()) { v |= (unsigned char)s[i + 1] << 8; ++k; }
    if (i + 2 < s.size()) { v |= (unsigned char)s[i + 2]; ++k; }
    char q[4] = {T[v >> 18], T[v >> 12 & 63], k > 1 ? T[v >> 6 & 63] : '=', k > 2 ? T[v & 63] : '='};
    for (char c : q) { if (line && n && n % line == 0) r += '\n'; r += c; ++n; }
  }
  return r;
}
std::string Meas::type() const {
  if (kind == "int") return "numeric/integer";
  if (kind == "float") return "numeric/float";
  if (kind == "double") return "numeric/double";
  if (kind == "bool") return "numeric/boolean";
  if (kind == "string") return "text/string";
  if (kind == "plain" || kind == "ftext") return "text/plain";
  if (kind == "fpng") return "image/png";
  if (kind == "fjpeg") return "image/jpeg";
  return "?";
}
std::string fmt_float(float f) { char b[64]; snprintf(b, sizeof b, "%.7g", f); return b; }
std::string fmt_double(double f) { char b[64]; snprintf(b, sizeof b, "%.16g", f); return b; }

int num_value(const std::string& kind, const std::string& s0, long double& v) {
  std::string s = s0;
  while (!s.empty() && isspace((unsigned char)s[0])) s.erase(0, 1);
  while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
  if (s.empty()) return 0;
  if (kind == "bool") { std::string d = s[0] == '+' || s[0] == '-' ? s.substr(1) : s; size_t nz = d.find_first_not_of('0'); if (d.empty()) return 0; if (nz == std::string::npos) v = 0; else if (s[0] != '-' && d.substr(nz) == "1") v = 1; else { bool z = true; for (char c : s) if (!strchr("0123456789+-", c)) z = false; return z ? 2 : 0; } return 1; }
  if (kind == "int") {
    size_t i = 0; if (s[0] == '-' || s[0] == '+') i = 1;
    if (i >= s.size()) return 0;
    for (size_t k = i; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') return (strchr(".eExX", s[k]) ? (k > i ? 2 : 0) : 0);
    if (s.size() - i > 18) return 2;
    v = (long double)strtoll(s.c_str(), 0, 10); return 1;
  }
  size_t i = 0, dg = 0; if (s[0] == '-' || s[0] == '+') i = 1;
  size_t k = i;
  while (k < s.size() && isdigit((unsigned char)s[k])) ++k, ++dg;
  if (k < s.size() && s[k] == '.') { ++k; while (k < s.size() && isdigit((unsigned char)s[k])) ++k, ++dg; }
  if (!dg) return 0;
  if (k < s.size() && (s[k] == 'e' || s[k] == 'E')) { ++k; if (k < s.size() && (s[k] == '+' || s[k] == '-')) ++k; size_t e = 0; while (k < s.size() && isdigit((unsigned char)s[k])) ++k, ++e; if (!e) return 0; }
  if (k != s.size()) { if (i < s.size() && s[i] == '0' && i + 1 < s.size() && (s[i + 1] == 'x' || s[i + 1] == 'X')) return 2; return 0; }
  if (kind == "float") { float f = strtof(s.c_str(), 0); v = f; long double a = fabsl(strtold(s.c_str(), 0)); if (a > (long double)FLT_MAX * 0.99999L) return 2; if (a != 0 && a < FLT_MIN) return 2; return 1; }
  double d = strtod(s.c_str(), 0); v = d; long double a = fabsl(strtold(s.c_str(), 0));
  if (a > (long double)DBL_MAX * 0.9999999999L) return 2;
  if (a != 0 && a < DBL_MIN) return 2;
  return 1;
}
Tri content_match(const Entry& b, const Meas& m, double tol) {
  std::string bc = b.content;
  if (b.comp != "none") return Maybe;
  if (b.enc == "base64") {
    std::string d;
    if (m.numeric() && m.tol) return Maybe;
    if (!b64_decode(b.content, d)) return b.content == m.text ? Maybe : No;
    bc = d;
  } else if (b.enc != "none") return Maybe;
  if (bc == m.text) return Yes;
  if (!m.numeric() || !m.tol || tol == 0) return No;
  long double u, v;
  int x = num_value(m.kind, bc, u), y = num_value(m.kind, m.text, v);
  if (x == 0 || y == 0) return No;
  if (x == 2 || y == 2) return Maybe;
  if (m.kind == "bool") return u == v ? Yes : No;
  long double d = fabsl(u - v), t = fabsl((long double)tol), lim = t * (fabsl(u) > fabsl(v) ? fabsl(u) : fabsl(v));
  long double eps = m.kind == "float" ? FLT_EPSILON : m.kind == "double" ? (long double)DBL_EPSILON : 0;
  if (fabsl(u) < eps && fabsl(v) < eps) return Yes;
  if (d == 0) return Yes;
  long double slack = (m.kind == "float" ? 4 * (long double)FLT_EPSILON : 4 * (long double)DBL_EPSILON) * (fabsl(u) + fabsl(v) + lim);
  if (m.kind == "int") slack = (d + lim) * 1e-15L;
  if (fabsl(d - lim) <= slack) return Maybe;
  bool nearu = fabsl(fabsl(u) - eps) < eps * 1e-6L, nearv = fabsl(fabsl(v) - eps) < eps * 1e-6L;
  if (d > lim && eps > 0 && (nearu || nearv) && fabsl(u) < eps * 1.01L && fabsl(v) < eps * 1.01L) return Maybe;
  return d <= lim ? Yes : No;
}
Tri matches(const Entry& b, const Meas& m, double tol) {
  if (b.odd) return Maybe;
  if (b.name != m.name) return No;
  std::string bt = b.type;
  if (!b.has_type && b.elem == "DartMeasurementFile") bt = "text/plain";
  if (bt != m.type()) return No;
  if (b.elem != m.elem() || m.is_file()) return Maybe; // needs file contents: decided by the caller
  return content_match(b, m, tol);
}
bool apply_diff(const std::string& from, const std::string& script, std::string& to, std::string& err) {
  std::vector<std::string> f, sc, out;
  auto split = [](const std::string& s, std::vector<std::string>& v) { size_t i = 0; for (;;) { size_t j = s.find('\n', i); if (j == std::string::npos) { v.push_back(s.substr(i)); return; } v.push_back(s.substr(i, j - i)); i = j + 1; } };
  split(from, f); split(script, sc);
  if (!sc.empty() && sc.back().empty()) sc.pop_back(); // script ends with a newline
  size_t pos = 0, i = 0; // pos: lines of f consumed
  while (i < sc.size()) {
    const std::string& c = sc[i++];
    long a1 = 0, a2, b1, b2; char op = 0; int n = 0;
    const char* p = c.c_str(); char* e;
    a1 = strtol(p, &e, 10); if (e == p) { err = "bad command \"" + c + "\""; return false; }
    a2 = a1; p = e; if (*p == ',') { a2 = strtol(p + 1, &e, 10); if (e == p + 1) { err = "bad range \"" + c + "\""; return false; } p = e; }
    op = *p++; b1 = strtol(p, &e, 10); if (e == p) { err = "bad command \"" + c + "\""; return false; } b2 = b1; p = e;
    if (*p == ',') { b2 = strtol(p + 1, &e, 10); p = e; }
    if (*p) { err = "trailing text in \"" + c + "\""; return false; }
    (void)n;
    long del = op == 'a' ? 0 : a2 - a1 + 1, ins = op == 'd' ? 0 : b2 - b1 + 1;
    long start = op == 'a' ? a1 : a1 - 1; // lines before the edit
    if (op != 'a' && op != 'd' && op != 'c') { err = "unknown command \"" + c + "\""; return false; }
    if (start < (long)pos || start + del > (long)f.size() || del < 0 || ins < 0) { err = "range out of order in \"" + c + "\""; return false; }
    while ((long)pos < start) out.push_back(f[pos++]);
    for (long k = 0; k < del; ++k) {
      if (i >= sc.size() || sc[i].compare(0, 2, "< ") || sc[i].substr(2) != f[pos]) { err = "deleted line does not match the baseline in \"" + c + "\""; return false; }
      ++i; ++pos;
    }
    if (op == 'c') { if (i >= sc.size() || (sc[i] != "----" && sc[i] != "---")) { err = "no separator in \"" + c + "\""; return false; } ++i; }
    if (ins && (long)out.size() + 1 != b1) { err = "wrong target line in \"" + c + "\""; return false; }
    for (long k = 0; k < ins; ++k) {
      if (i >= sc.size() || sc[i].compare(0, 2, "> ")) { err = "inserted line missing in \"" + c + "\""; return false; }
      out.push_back(sc[i].substr(2)); ++i;
    }
  }
  while (pos < f.size()) out.push_back(f[pos++]);
  to.clear();
  for (size_t k = 0; k < out.size(); ++k) { if (k) to += '\n'; to += out[k]; }
  return true;
}
std::string esc_text(const std::string& s) {
  std::string r;
  for (char c : s) { if (c == '&') r += "&amp;"; else if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '\r') r += "&#13;"; else r += c; }
  return r;
}
std::string esc_attr(const std::string& s) {
  std::string r;
  for (char c : s) { if (c == '&') r += "&amp;"; else if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '"') r += "&quot;"; else if (c == '\r') r += "&#13;"; else if (c == '\n') r += "&#10;"; else if (c == '\t') r += "&#9;"; else r += c; }
  return r;
}
std::string printable(const std::string& s, size_t n) { std::string r; J::q(r, s.size() > n ? s.substr(0, n) + "..." : s); return r; }
} // namespace model
