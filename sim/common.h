// Helpers shared by the property definitions.
#pragma once
#include "gen.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdlib>
#include <cstring>
namespace prop {
using namespace gen;
using model::Doc;
using model::Tri;
inline std::string S(long v) { return std::to_string(v); }
const double DEFTOL = 1.1920928955078125e-07 * 64;

// ---- baseline set-up: places the document and the options that select it
struct Base { std::string path; std::vector<std::string> others; };
inline Base place_base(Gen& g, J& plan, J& p, const std::string& data) {
  Base b;
  int k = (int)g.r.below(8);
  std::string fn = g.r.chance(1, 4) ? "base line.xml" : "base.xml";
  bool nosplit = false; (void)nosplit;
  J& args = p["args"];
  auto opt = [&](const std::string& o, const std::string& v) { args.push(o); args.push(v); };
  if (k < 3) { b.path = "/w/" + fn; opt("-I", g.r.chance(1, 2) ? fn : b.path); }
  else if (k == 3) { b.path = "/w/" + fn; p["api_in"] = g.r.chance(1, 2) ? b.path : fn; }
  else if (k == 4) { // found through a search directory, by -P
    plan["fs"].push(dir("/s1")); plan["fs"].push(dir("/s2"));
    b.path = (g.r.chance(1, 2) ? "/s1/" : "/s2/") + fn;
    opt("-P", "/s1"); opt("-P", "/s2");
    p["api_in"] = fn;
  } else if (k == 5) { // search path set by the program
    plan["fs"].push(dir("/s1")); plan["fs"].push(dir("/w/sub"));
    b.path = "/w/sub/" + fn; p["search"] = J::arr(); p["search"].push("/s1"); p["search"].push(g.r.chance(1, 2) ? "sub" : "/w/sub");
    p["api_in"] = fn;
  } else if (k == 6) { // search directory that does not contain it
    plan["fs"].push(dir("/s1"));
    b.path = "/w/" + fn; opt("-P", "/s1"); opt("-I", fn);
  } else { // both: the search directory wins
    plan["fs"].push(dir("/s1"));
    b.path = "/s1/" + fn; plan["fs"].push(file("/w/" + fn, data)); opt("-P", "/s1"); opt("-I", fn);
    b.others.push_back("/w/" + fn);
  }
  plan["fs"].push(file(b.path, data));
  return b;
}
inline void out_to(Gen& g, J& p, const std::string& path, bool may_stdout = true) {
  int k = (int)g.r.below(4);
  if (k == 0 && may_stdout) { p["outpath"] = ""; return; }
  p["outpath"] = path;
  if (k == 1) { p["api_out"] = path; return; }
  std::string v = path;
  if (k == 2 && !path.compare(0, 3, "/w/")) v = path.substr(3);
  J a = J::arr(); a.push("-O"); a.push(v);
  for (auto& x : p.at("args").a) a.push(x);
  p["args"] = a;
}
inline std::string output_of(const Judge& j, int proc, bool* present = nullptr) {
  const J& s = j.spec(proc); const J& r = j.proc(proc);
  std::string o = s.str("outpath"), d;
  if (o.empty()) { if (present) *present = true; return r.str("out"); }
  bool ok = j.file(o, d, (int)r.num("phase"));
  if (present) *present = ok;
  return d;
}
// positional model: expected result of each op against the document
struct Exp { Tri t = model::No; bool unmatched = false; Meas m; model::Entry e; int op = 0; };
inline std::vector<Exp> expect(const J& spec, const std::vector<Entry>& es, int upto = INT_MAX) {
  std::vector<Exp> v;
  double tol = spec.str("tolv").empty() ? DEFTOL : strtod(spec.str("tolv").c_str(), 0);
  size_t k = 0; int i = 0;
  for (auto& op : spec.at("ops").a) {
    if (i >= upto) break;
    std::string o = op.str("op", "m");
    if (o == "tol") tol = strtod(op.str("v").c_str(), 0);
    if (o == "throw" && !op.has("only")) break; // (of the last run)
    if (o == "m") {
      Exp x; x.m = meas_of(op); x.op = i;
      if (k >= es.size()) { x.t = model::No; x.unmatched = true; }
      else {
        x.e = es[k++];
        x.t = model::matches(x.e, x.m, tol);
        std::string bt = x.e.type;
        x.unmatched = x.e.name != x.m.name || bt != x.m.type();
      }
      v.push_back(x);
    }
    ++i;
  }
  return v;
}
inline bool body_completes(const J& spec) { for (auto& op : spec.at("ops").a) if (op.str("op", "m") == "throw") return false; return true; }
inline int expected_ret(const J& spec) {
  int r = (int)spec.num("api_ret", 0);
  auto& a = spec.at("args").a;
  for (size_t i = 0; i + 1 < a.size(); i += 2) {
    if (a[i].s == "-R") r = (int)strtol(a[i + 1].s.c_str(), 0, 10);
    else if (a[i].s != "-O" && a[i].s != "-I" && a[i].s != "-P") break;
  }
  return r;
}
inline std::string why(const Exp& x) {
  return x.m.kind + " \"" + x.m.name + "\" = " + model::printable(x.m.text) + " against baseline " + (x.e.elem.empty() ? std::string("(none left)") : x.e.type + " \"" + x.e.name + "\" = " + model::printable(x.e.content));
}
inline void set_ret(Gen& g, J& p) {
  static const int R[] = {0, 0, 0, 1, -1, 3, 255, 256, -2};
  int r = R[g.r.below(9)];
  if (r || g.r.chance(1, 6)) { J a = J::arr(); if (g.r.chance(2, 3)) { a.push("-R"); a.push(S(r)); for (auto& x : p.at("args").a) a.push(x); p["args"] = a; } else p["api_ret"] = r; }
  p["bodyret"] = g.r.chance(7, 8) ? r : (int)g.r.range(-2, 3);
}
inline void extra_args(Gen& g, J& p) { int n = (int)g.r.below(3); for (int i = 0; i < n; ++i) p["args"].push(i == 0 ? "arg" : "-O"); if (n == 2) p["args"].push("x"); }
inline void tol_of(Gen& g, J& p) { static const char* T[] = {"0", "1e-3", "1e-9", "0.5", "-0.01", "7.62939453125e-06"}; if (g.r.chance(1, 2)) p["tolv"] = T[g.r.below(6)]; }
inline double tolv(const J& p) { return p.str("tolv").empty() ? DEFTOL : strtod(p.str("tolv").c_str(), 0); }
// environment action on the baseline or its surroundings, placed on an event of the run
inline void place_env(Gen& g, J& plan, const J& dry, int proc, const std::vector<J>& acts, int n, const std::vector<std::string>& classes) {
  if ((size_t)proc >= dry.at("procs").size()) return;
  const J& cnt = dry.at("procs").a[proc].at("cnt");
  for (int k = 0; k < n; ++k) {
    std::vector<std::string> c;
    for (auto& x : classes) if (cnt.num(x) > 0) c.push_back(x);
    if (c.empty() || acts.empty()) return;
    J f = J::obj();
    f["proc"] = proc; f["cls"] = g.r.pick(c); f["nth"] = (long)g.r.below(cnt.num(f.str("cls"))); f["act"] = "env"; f["payload"] = g.r.pick(acts);
    plan["faults"].push(f);
  }
}
inline bool other_faults(const J& plan, int proc) { for (auto& f : plan.at("faults").a) if (f.num("proc") == proc) return true; return false; }
// did anything that is not benign fire for the run?
inline bool benign(const std::string& k) {
  return k.find("EINTR") != std::string::npos || k.find("/split") != std::string::npos || k.find("/short") != std::string::npos ||
         !k.compare(0, 9, "schedule/") || k == "env/stall" || k == "env/clock" || k == "time/jump";
}
// did anything that is not benign fire in the run?
inline bool harmed(const Judge& j) { for (auto& f : j.rec.at("fired").o) if (!benign(f.first)) return true; return false; }
void check_followup(Judge& j, int proc);
} // namespace prop
