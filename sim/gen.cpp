#include "gen.h"
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstring>
std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
bool Judge::file(const std::string& abs, std::string& data, int phase) const {
  const J* fs = &rec.at("files");
  if (phase >= 0) { if ((size_t)phase >= rec.at("phases").size()) return false; fs = &rec.at("phases").a[phase].at("files"); }
  for (auto& f : fs->a) if (f.str("path") == abs && !f.num("dir")) { data = f.str("data"); return true; }
  return false;
}
namespace gen {
static const char* SPECIAL = "<>&\"'\n\r\t ];#-=/?![xa";
Gen::Gen(uint64_t seed) : r(seed) {
  alpha = (int)r.below(6);
  maxlen = r.chance(1, 8) ? 1500 : r.chance(1, 3) ? 60 : 12;
  dupnames = r.chance(1, 3);
  std::vector<std::string> all = {"int", "float", "double", "bool", "string", "plain"};
  for (auto& k : all) if (r.chance(2, 3)) kinds.push_back(k);
  if (kinds.empty()) kinds = all;
}
std::string Gen::str(int max) {
  int n;
  int c = (int)r.below(20);
  if (c == 0) n = 0; else if (c < 14) n = (int)r.range(1, std::min(max, 8)); else n = (int)r.range(0, max);
  std::string s;
  for (int i = 0; i < n; ++i) {
    int a = alpha == 5 ? (int)r.below(4) : alpha;
    char ch;
    switch (a) {
      case 0: ch = (char)('a' + r.below(3)); break;
      case 1: ch = (char)(32 + r.below(95)); break;
      case 2: ch = SPECIAL[r.below(strlen(SPECIAL))]; break;
      case 3: ch = " \n\r\tab"[r.below(6)]; break;
      default: ch = "0123456789.-e+ "[r.below(15)]; break;
    }
    if (alpha != 0 && alpha != 3 && alpha != 4 && r.chance(1, 24)) { // what markup and numbers look like
      static const char* T[] = {"&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#10;", "&#x41;", "&amp;amp;", "]]>", "<![CDATA[", "<!--", "-->", "</DartMeasurement>", "<output>", "<?xml", "&x;", "%s", "\\n"};
      s += T[r.below(18)]; continue;
    }
    s += ch;
  }
  return s;
}
std::string Gen::name() {
  if (dupnames) return std::string(1, (char)('a' + r.below(2)));
  if (r.chance(1, 3)) return "m" + std::to_string(r.below(20));
  if (r.chance(1, 150)) return str(1) + std::string((size_t)r.range(60, r.chance(1, 4) ? 9000 : 600), (char)('a' + r.below(26))) + str(1);
  return str(std::min(maxlen, 40));
}
std::string Gen::big() {
  static const int N[] = {1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 65535, 65536, 70000};
  size_t n = r.chance(1, 2) ? (size_t)N[r.below(14)] : (size_t)r.range(500, 9000);
  if (r.chance(1, 6)) { static const int B[] = {100000, 120000, 131072, 200000, 262145}; n = (size_t)B[r.below(5)]; }
  int style = (int)r.below(4);
  std::string s, c = style == 0 ? "x" : std::string(1, "<&>\n a\r\""[r.below(8)]);
  if (style <= 1 && c == "\n") n = std::min<size_t>(n, 400); // (differences take quadratic time in the lines)
  for (long i = 0; s.size() < n; ++i)
    if (style <= 1) s += c; else if (style == 2) s += "line " + std::to_string(i) + std::string(n / 300, '.') + "\n"; else s += (char)(r.chance(1, 200) ? '\n' : 32 + r.below(95));
  s.resize(n);
  return s;
}
std::string Gen::lines(int maxl) {
  int n = (int)r.range(0, maxl);
  std::string s;
  std::string pool[4];
  for (auto& p : pool) { p = str(std::min(maxlen, 20)); for (char& c : p) if (c == '\n') c = ' '; }
  for (int i = 0; i < n; ++i) { if (i) s += '\n'; s += r.chance(1, 4) ? str(6) : pool[r.below(4)]; }
  if (r.chance(1, 2)) s += '\n';
  return s;
}
J Gen::set_num(J op) {
  std::string k = op.str("kind");
  if (k == "int") op["text"] = std::to_string(op.num("i"));
  else if (k == "bool") op["text"] = op.num("i") ? "1" : "0";
  else if (k == "float") { uint32_t b = (uint32_t)op.num("i"); float f; memcpy(&f, &b, 4); op["text"] = model::fmt_float(f); }
  else if (k == "double") { uint64_t b = (uint64_t)op.num("i"); double f; memcpy(&f, &b, 8); op["text"] = model::fmt_double(f); }
  return op;
}
J Gen::meas(const std::string& kind) {
  J o = J::obj();
  o["op"] = "m"; o["kind"] = kind; o["name"] = name();
  if (kind == "int") {
    static const long E[] = {0, 1, -1, 7, 100, 12345, INT_MAX, (long)INT_MAX + 1, (long)INT_MIN, (long)INT_MIN - 1, UINT_MAX, 1L << 32, (1L << 53) + 1, 999999999999999999L, LONG_MAX, LONG_MIN};
    long v = r.chance(1, 2) ? E[r.below(16)] : r.chance(1, 2) ? r.range(-1000, 1000) : (long)(r.next() >> r.below(62));
    o["i"] = v; o["tol"] = r.chance(1, 2);
  } else if (kind == "bool") { o["i"] = (long)r.below(2); o["tol"] = r.chance(1, 3); }
  else if (kind == "float") {
    float E[] = {0.0f, -0.0f, 1.0f, 1.5f, 3.14159265f, 0.1f, FLT_EPSILON, FLT_EPSILON / 2, FLT_EPSILON * 2, FLT_MIN, 1e-42f, FLT_MAX, INFINITY, -INFINITY, r.chance(1, 2) ? NAN : -NAN, 123456.7f, 1e20f, -2.5e-10f, 16777217.0f, 99999.995f};
    float f = r.chance(1, 2) ? E[r.below(20)] : (float)((double)r.range(-1000000, 1000000) / std::pow(10.0, (double)r.range(-3, 9)));
    if (r.chance(1, 12)) { uint32_t b = (uint32_t)r.next(); memcpy(&f, &b, 4); if (std::isnan(f)) f = 2; }
    uint32_t b; memcpy(&b, &f, 4); o["i"] = (long)b; o["tol"] = r.chance(3, 4);
  } else if (kind == "double") {
    double E[] = {0.0, -0.0, 1.0, 1.5, 3.14159265358979, 0.1, DBL_EPSILON, DBL_EPSILON / 2, DBL_EPSILON * 2, DBL_MIN, 5e-324, DBL_MAX, INFINITY, -INFINITY, r.chance(1, 2) ? NAN : -NAN, 1e300, 1.0 / 3, -2.5e-10, 9007199254740993.0, 1e22};
    double f = r.chance(1, 2) ? E[r.below(20)] : (double)r.range(-1000000, 1000000) / std::pow(10.0, (double)r.range(-3, 9)) * (1 + 1e-13 * (double)r.below(100));
    if (r.chance(1, 12)) { uint64_t b = r.next(); memcpy(&f, &b, 8); if (std::isnan(f)) f = 2; }
    uint64_t b; memcpy(&b, &f, 8); o["i"] = (long long)b; o["tol"] = r.chance(3, 4);
  } else if (r.chance(1, 150)) o["text"] = big();
  else if (kind == "string") o["text"] = str(maxlen);
  else o["text"] = r.chance(1, 2) ? lines(6) : str(maxlen);
  return set_num(o);
}
J Gen::ops(int lo, int hi) {
  J a = J::arr();
  int n = (int)r.range(lo, hi);
  if (hi > 4 && r.chance(1, 200)) n = (int)r.range(hi, 260);
  for (int i = 0; i < n; ++i) a.push(meas());
  return a;
}
Meas meas_of(const J& op) { Meas m; m.kind = op.str("kind"); m.name = op.str("name"); m.text = op.str("text"); m.tol = op.num("tol"); return m; }
Entry entry_of(const Meas& m) {
  Entry e; e.elem = m.elem(); e.name = m.name; e.type = m.type(); e.content = m.text; e.has_type = e.has_name = true;
  if (m.is_file()) { size_t p = e.content.rfind('/'); if (p != std::string::npos) e.content = e.content.substr(p + 1); }
  return e;
}
std::vector<Entry> entries_of(const J& ops) {
  std::vector<Entry> v;
  for (auto& o : ops.a) if (o.str("op", "m") == "m") v.push_back(entry_of(meas_of(o)));
  return v;
}
static std::string attr(const std::string& k, const std::string& v, Rng* r) {
  std::string e = model::esc_attr(v);
  if (r && r->chance(1, 4) && e.find('\'') == std::string::npos) {
    std::string s; size_t i = 0; // unescape &quot; inside single quotes
    while (i < e.size()) { if (!e.compare(i, 6, "&quot;")) { s += '"'; i += 6; } else s += e[i++]; }
    return k + "='" + s + "'";
  }
  return k + (r && r->chance(1, 10) ? " = \"" : "=\"") + e + "\"";
}
static std::string content(const std::string& c, Rng* r) {
  if (!r) return model::esc_text(c);
  std::string s; size_t i = 0;
  while (i < c.size()) {
    int k = (int)r->below(10);
    size_t n = 1 + r->below(k == 0 ? 40 : 12);
    std::string piece = c.substr(i, n);
    if (k < 2 && piece.find("]]>") == std::string::npos && piece.find('\r') == std::string::npos && (s.empty() || s.back() != ']')) s += "<![CDATA[" + piece + "]]>";
    else if (k == 2) { char b[16]; piece = piece.substr(0, 1); n = 1; snprintf(b, sizeof b, r->chance(1, 2) ? "&#%d;" : "&#x%x;", (unsigned char)piece[0]); s += b; }
    else if (k == 3) { for (char ch : piece) { if (ch == '"') s += "&quot;"; else if (ch == '\'') s += "&apos;"; else s += model::esc_text(std::string(1, ch)); } }
    else s += model::esc_text(piece);
    if (r->chance(1, 30)) s += "<!-- c -->";
    i += n;
  }
  return s;
}
std::string write_entry(const Entry& e, Rng* r) {
  std::vector<std::string> at;
  if (e.has_name) at.push_back(attr("name", e.name, r));
  if (e.has_type) at.push_back(attr("type", e.type, r));
  if (e.enc != "none" || (r && e.elem == "DartMeasurement" && r->chance(1, 6))) at.push_back(attr("encoding", e.enc, r));
  if (e.comp != "none") at.push_back(attr("compression", e.comp, r));
  if (r) for (size_t i = at.size(); i > 1; --i) std::swap(at[i - 1], at[r->below(i)]);
  std::string s = "<" + e.elem;
  for (auto& a : at) s += (r && r->chance(1, 8) ? "\n\t" : " ") + a;
  if (r && e.content.empty() && r->chance(1, 2)) return s + "/>";
  if (r && r->chance(1, 8)) s += " ";
  s += ">" + content(e.content, r) + "</" + e.elem + (r && r->chance(1, 10) ? " >" : ">");
  return s;
}
std::string write_doc(const std::vector<Entry>& es, Rng* r, long mod) {
  std::string s;
  auto gap = [&](const char* d) -> std::string {
    if (!r) return d;
    std::string g; int n = (int)r->below(4);
    for (int i = 0; i < n; ++i) switch (r->below(5)) { case 0: g += "<!-- x <y> & -->"; break; case 1: g += "\n\n"; break; case 2: g += "  \t"; break; case 3: g += "<?pi some data?>"; break; default: g += "\r\n"; }
    return g;
  };
  if (!r || r->chance(3, 4)) s += "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n";
  if (!r) s += "<!-- created on basehost at Sun Sep  9 01:46:40 2001\n -->\n";
  s += gap("") + "<output>" + gap("\n");
  for (auto& e : es) s += write_entry(e, r) + gap("\n");
  std::string tail = "</output>" + gap("\n");
  if (mod >= 0) {
    long want = mod, have = (long)((s.size() + tail.size() + 7) % 1024);
    long pad = (want - have + 2048) % 1024;
    s += "<!--" + std::string(pad, '.') + "-->";
  }
  return s + tail;
}
void perturb(Gen& g, std::vector<Entry>& es, const J& ops, double tol, int n) {
  for (int k = 0; k < n; ++k) {
    int c = (int)g.r.below(10);
    size_t i = es.empty() ? 0 : g.r.below(es.size());
    if (c == 0) { es.insert(es.begin() + (es.empty() ? 0 : g.r.below(es.size() + 1)), entry_of(meas_of(g.meas()))); continue; }
    if (es.empty()) continue;
    Entry& e = es[i];
    if (c == 1) es.erase(es.begin() + i);
    else if (c == 2) std::swap(es[i], es[g.r.below(es.size())]);
    else if (c == 3) { e.name = g.r.chance(1, 2) ? g.name() : e.name + "x"; }
    else if (c == 4) {
      static const char* T[] = {"numeric/integer", "numeric/float", "numeric/double", "numeric/boolean", "text/string", "text/plain", "text/unknown", "numeric/float "};
      e.type = T[g.r.below(8)];
    } else if (c == 5) { if (e.content.empty()) e.content = "x"; else { size_t p = g.r.below(e.content.size()); if (g.r.chance(1, 2)) e.content[p] = e.content[p] == 'q' ? 'r' : 'q'; else e.content.erase(p, 1); } }
    else if (c == 6 && e.type == "text/plain") e.content = g.lines(8);
    else if (e.type.compare(0, 8, "numeric/") == 0) {
      long double v; std::string kd = e.type == "numeric/integer" ? "int" : e.type == "numeric/float" ? "float" : e.type == "numeric/double" ? "double" : "bool";
      if (g.r.chance(1, 8)) { static const char* X[] = {"nan", "inf", "-inf", "", "abc", "1e999", "0x10", "1.5.5", "  ", "-nan", "1e", "12abc", "99999999999999999999999"}; e.content = X[g.r.below(13)]; continue; }
      if (model::num_value(kd, e.content, v) != 1) continue;
      if (g.r.chance(1, 6)) { // the same number, written differently
        std::string& c = e.content; bool neg = c[0] == '-';
        switch (g.r.below(5)) { case 0: c = " " + c; break; case 1: c += g.r.chance(1, 2) ? " " : "\n"; break; case 2: if (!neg) c = "+" + c; break; case 3: c.insert(neg ? 1 : 0, g.r.chance(1, 2) ? "0" : "00"); break; default: if (kd == "float" || kd == "double") { if (c.find_first_of(".eE") == std::string::npos) c += ".0"; else c = "\t" + c; } else c = "\n" + c; }
        continue;
      }
      static const double F[] = {0.5, 0.9, 0.99, 1.01, 1.1, 2, -0.5, -0.9, -1.1, -2, 10, 0.999, 1.001};
      long double w = v + v * (long double)tol * F[g.r.below(13)];
      if (g.r.chance(1, 8)) w = -v;
      if (g.r.chance(1, 10)) w = v / 2;
      if (kd == "int") { if (fabsl(w) < 9e17L) e.content = std::to_string((long long)(w == v ? v + g.r.range(-3, 3) : w)); }
      else if (kd == "bool") e.content = v ? "0" : "1";
      else { char b[80]; snprintf(b, sizeof b, kd == "float" ? "%.9Lg" : "%.17Lg", w); e.content = b; if (e.content.find("inf") != std::string::npos) e.content = "1"; }
    } else e.content = g.str(g.maxlen);
  }
}
std::string Gen::corrupt(std::string d) {
  int n = (int)r.range(1, 2);
  for (int k = 0; k < n && !d.empty(); ++k) {
    size_t p = r.below(d.size());
    switch (r.below(10)) {
      case 0: case 1: d.resize(p); break;
      case 2: d[p] = (char)(d[p] ^ (1 << r.below(7))); break;
      case 3: d[p] = (char)r.below(256); break;
      case 4: d.erase(p, 1 + r.below(40)); break;
      case 5: { std::string s = d.substr(p, 1 + r.below(40)); d.insert(r.below(d.size()), s); break; }
      case 6: { size_t q = d.rfind("</output>"); if (q != std::string::npos) d.resize(q + r.below(9)); break; }
      case 7: if (r.chance(2, 3)) { // one more measurement, with something inside which is no text
          std::vector<size_t> at; for (size_t q = 0; (q = d.find("<DartMeasurement", q)) != std::string::npos; ++q) at.push_back(q);
          if (!at.empty()) { static const char* E[] = {"<b/>", "<b>c</b>", "<DartMeasurement name=\"q\" type=\"text/string\">x</DartMeasurement>", "t<b/>", "<b/>t", "<b><c/></b>"}; std::string f = r.chance(1, 4) ? "File" : ""; d.insert(at[r.below(at.size())], "<DartMeasurement" + f + " name=\"n\" type=\"text/plain\">" + E[r.below(6)] + "</DartMeasurement" + f + ">"); break; }
        }
        d += r.chance(1, 2) ? "<x/>" : "garbage"; break;
      case 8: { static const char* T[] = {"<a>", "</DartMeasurement>", "<DartMeasurement>", "<DartMeasurement name=\"q\">", "<DartMeasurement type=\"text/plain\">z", "<b/>", "&bad;", "&#0;", "<!--", "]]>", "<DartMeasurementFile>f</DartMeasurementFile>", "<DartMeasurement foo=\"1\" type=\"text/string\" name=\"n\">x</DartMeasurement>"}; d.insert(p, T[r.below(12)]); break; }
      default: { size_t e = std::min(d.size(), p + 1 + r.below(1100)); for (size_t i = p; i < e; ++i) d[i] = 0; break; }
    }
  }
  return d;
}
J proc(Gen& g, const std::string& kind) {
  J p = J::obj();
  p["kind"] = kind; p["cwd"] = "/w";
  static const char* H[] = {"simhost", "a", "host-with--dashes", "h<o>&st", "-", "very-long-host-name.example.org"};
  p["host"] = g.r.chance(1, 2) ? "simhost" : H[g.r.below(6)];
  static const long long C[] = {1000000000LL, 0, -1, 4102444800LL, 2147483648LL, 253402300800LL, 67767976233532799LL + 1000};
  p["clock"] = g.r.chance(2, 3) ? 1000000000LL : C[g.r.below(g.r.chance(1, 8) ? 7 : 5)];
  p["seed"] = (long)g.r.below(1 << 30);
  p["split"] = g.r.chance(1, 2) ? 0 : (long)g.r.range(1, 3);
  if (kind == "test" && g.r.chance(1, 10)) { p["locale"] = (long)g.r.range(1, 3); p["locale_at"] = g.r.chance(1, 2) ? -1L : (long)g.r.below(4); }
  p["args"] = J::arr(); p["ops"] = J::arr();
  return p;
}
J file(const std::string& path, const std::string& data, int mode) { J f = J::obj(); f["path"] = path; f["data"] = data; f["mode"] = mode; return f; }
J dir(const std::string& path, int mode) { J f = J::obj(); f["path"] = path; f["dir"] = 1; f["mode"] = mode; return f; }
J phase1(std::vector<int> ps, bool conc) {
  J g = J::obj(); g["procs"] = J::arr(); for (int i : ps) g["procs"].push(i);
  g["conc"] = conc; J ph = J::obj(); ph["groups"] = J::arr(); ph["groups"].push(g); return ph;
}
void add_phase(J& plan, const J& ph) { plan["phases"].push(ph); }
J plan(const char* prop, uint64_t seed, Gen& g) {
  J p = J::obj();
  p["prop"] = prop; p["seed"] = (long long)seed; p["fill"] = (long)g.r.below(3);
  p["fs"] = J::arr(); p["fs"].push(dir("/w")); p["procs"] = J::arr(); p["phases"] = J::arr(); p["faults"] = J::arr();
  return p;
}
J env(const std::string& op, const std::string& path, long arg, const std::string& data) { J a = J::obj(); a["op"] = op; a["path"] = path; if (arg) a["arg"] = arg; if (!data.empty()) a["data"] = data; return a; }
void place(Gen& g, J& plan, const J& dry, int proc, const std::vector<std::string>& menu, int n) {
  if ((size_t)proc >= dry.at("procs").size()) return;
  const J& cnt = dry.at("procs").a[proc].at("cnt");
  Rng& r = g.r;
  for (int k = 0; k < n; ++k) {
    std::vector<std::string> m;
    for (auto& c : menu) { std::string cls = c.substr(0, c.find(':')); if (cnt.num(cls) > 0) m.push_back(c); }
    if (m.empty()) return;
    std::string c = m[r.below(m.size())];
    std::string cls = c.substr(0, c.find(':')), act = c.find(':') == std::string::npos ? "errno" : c.substr(c.find(':') + 1);
    long total = cnt.num(cls);
    long nth = r.chance(1, 4) ? total - 1 - (long)r.below(std::min<long>(total, 3)) : (long)r.below(total);
    if (nth < 0) nth = 0;
    J f = J::obj();
    f["proc"] = proc; f["cls"] = cls; f["nth"] = nth; f["act"] = act;
    if (act == "errno") {
      std::vector<long> e;
      if (cls == "open" || cls == "opendir") e = {ENOENT, EACCES, EMFILE, EIO, ENOSPC};
      else if (cls == "read" || cls == "readdir" || cls == "lseek" || cls == "fstat") e = {EIO, EIO, EBADF};
      else if (cls == "write" || cls == "stdout") e = {ENOSPC, EIO, EDQUOT, EFBIG};
      else if (cls == "close") e = {EIO, ENOSPC, EDQUOT};
      else if (cls == "stat" || cls == "access") e = {EACCES, ENOENT, EIO, ENOTDIR, ELOOP, ENOMEM};
      else if (cls == "gethostname") e = {EFAULT, ENAMETOOLONG};
      else if (cls == "getcwd") e = {ENOENT, EACCES, ERANGE};
      else e = {EIO};
      f["arg"] = r.pick(e);
      if (cls == "write" && r.chance(1, 2)) { J pl = J::obj(); pl["persist"] = (long)r.range(2, 1000); f["payload"] = pl; }
      if (cls == "alloc") f["act"] = "enomem";
    } else if (act == "short") f["arg"] = (long)r.range(1, 200);
    else if (act == "eintr") { f["act"] = "errno"; f["arg"] = EINTR; }
    if (cls == "alloc") { f["act"] = "enomem"; if (r.chance(1, 4)) { J pl = J::obj(); pl["persist"] = (long)r.range(2, 400); f["payload"] = pl; } }
    plan["faults"].push(f);
  }
}
} // namespace gen
