// Properties of options, isolation, the pipe tool, file queries and layout:
// C09, C10, C11, C14, C15.
#include "common.h"
#include <cerrno>
using namespace prop;

// ------------------------------------------------------------------ C09
// Model of the command line: which files a run must use and what it returns.
namespace {
struct Cmd {
  bool fails = false;            // must fail without calling the test
  bool trailing = false;         // an option without a value: fail, or hand it to the test
  bool out_locked = false;       // existing output file that cannot be written
  std::string in, out;
  std::vector<std::string> search, rest;
  int expected = 0;
  bool compare = false;
  std::string base;              // absolute path of the baseline that must be read
  std::string why;
};
struct Fs {
  const J& fs; std::string cwd;
  const J* find(const std::string& abs) const {
    if (abs == "/") { static J r = dir("/"); return &r; }
    // every parent must be searchable
    const J* hit = nullptr;
    for (auto& f : fs.a) if (f.str("path") == abs) hit = &f;
    std::string par = abs;
    for (;;) { size_t k = par.rfind('/'); if (k == std::string::npos || k == 0) break; par.resize(k); bool known = false; for (auto& f : fs.a) if (f.str("path") == par) { known = true; if (!f.num("dir") || !(f.num("mode", 7) & 1)) return nullptr; } if (!known) { bool implied = false; for (auto& f : fs.a) if (!f.str("path").compare(0, par.size() + 1, par + "/")) implied = true; if (!implied) return nullptr; } }
    return hit;
  }
  std::string abs(const std::string& p) const { return sim::norm(p, cwd); }
  bool isfile(const std::string& p) const { if (p.empty() || p.back() == '/') return false; auto* f = find(abs(p)); return f && !f->num("dir"); }
  bool isdir(const std::string& p) const { if (p.empty()) return false; auto* f = find(abs(p)); return f && f->num("dir"); }
  int mode(const std::string& p) const { auto* f = find(abs(p)); return f ? (int)f->num("mode", f->num("dir") ? 7 : 6) : 0; }
};
}
static std::string joined(const std::string& d, const std::string& f) { return !f.empty() && f[0] == '/' ? f : d.empty() ? f : d + "/" + f; }
static bool find_base(Cmd& c, const Fs& fs) { // true if there is one and it can be read
  if (c.in.empty()) return false;
  std::string f = c.in;
  for (auto& d : c.search) if (fs.isfile(joined(d, c.in))) { f = joined(d, c.in); break; }
  c.base = fs.abs(f);
  return c.compare = fs.isfile(f) && (fs.mode(f) & 4);
}
static Cmd model_cmd(const J& plan, const J& s, bool with_args = true) {
  Fs fs{plan.at("fs"), s.str("cwd", "/w")};
  Cmd c; c.in = s.str("api_in"); c.out = s.str("api_out"); c.expected = (int)s.num("api_ret", 0);
  for (auto& d : s.at("search").a) c.search.push_back(d.s);
  for (auto& d : s.at("prepend").a) c.search.insert(c.search.begin(), d.s);
  if (!with_args) { find_base(c, fs); return c; }
  auto& a = s.at("args").a;
  size_t i = 0;
  auto fail = [&](const std::string& w) { if (!c.fails && !c.trailing) { c.fails = true; c.why = w; } };
  for (; i < a.size(); i += 2) {
    const std::string& o = a[i].s;
    if (o != "-O" && o != "-I" && o != "-R" && o != "-P") break;
    if (i + 1 >= a.size()) { if (!c.fails) c.trailing = true; break; }
    const std::string& v = a[i + 1].s;
    if (o == "-O") { if (fs.isfile(v) && !(fs.mode(v) & 2)) c.out_locked = true; else c.out = v; }
    else if (o == "-I") { if (!fs.isfile(v) || !(fs.mode(v) & 4)) fail("the input file " + v + " is not readable"); c.in = v; }
    else if (o == "-P") { if (!fs.isdir(v) || (fs.mode(v) & 5) != 5) fail("the search directory " + v + " is not readable"); c.search.insert(c.search.begin(), v); }
    else c.expected = (int)strtol(v.c_str(), 0, 10);
  }
  for (; i < a.size(); ++i) c.rest.push_back(a[i].s);
  if (!c.fails && !c.out.empty()) { // can it be created?
    std::string ab = fs.abs(c.out), par = ab.substr(0, std::max<size_t>(1, ab.rfind('/')));
    bool ok = fs.isdir(ab) ? false : fs.isfile(ab) ? (fs.mode(ab) & 2) != 0 : (fs.isdir(par) && (fs.mode(par) & 3) == 3 && c.out.back() != '/');
    if (!ok) fail("the output file " + c.out + " cannot be created");
  }
  if (!c.in.empty()) {
    if (!find_base(c, fs)) fail("the baseline " + c.base + " cannot be read");
    c.compare = true;
  }
  return c;
}
static J c09_gen(uint64_t seed) {
  Gen g(seed); Rng& r = g.r;
  J pl = gen::plan("C09", seed, g);
  J p = proc(g);
  J& fs = pl["fs"];
  for (auto d : {"/s1", "/s2", "/s3", "/w/sub", "/w/o"}) fs.push(dir(d));
  if (r.chance(1, 3)) fs.push(dir("/s4", (int)r.below(8)));
  p["ops"] = g.ops(3, 6);
  // the baselines differ in the number of mismatches, so the verdict tells which one was used
  int nops = (int)p.at("ops").size();
  auto doc = [&](int bad) { std::vector<Entry> es = entries_of(p.at("ops")); for (int k = 0; k < bad && k < nops; ++k) es[k].name += "?"; return write_doc(es, nullptr); };
  std::string fn = r.chance(1, 4) ? "sub/base.xml" : "base.xml";
  std::vector<std::string> at;
  for (auto d : {"/w/", "/s1/", "/s2/", "/s3/"}) if (r.chance(1, 2)) at.push_back(std::string(d) + fn);
  if (at.empty() || r.chance(1, 3)) if (std::find(at.begin(), at.end(), "/w/" + fn) == at.end()) at.push_back("/w/" + fn);
  for (size_t i = 0; i < at.size(); ++i) { if (fn != "base.xml") { std::string d = at[i].substr(0, at[i].size() - 9); bool have = false; for (auto& f : fs.a) if (f.str("path") == d) have = true; if (!have) fs.push(dir(d)); }
    if (r.chance(1, 20)) fs.push(dir(at[i])); else fs.push(file(at[i], doc((int)i), r.chance(1, 16) ? 2 : 6)); }
  fs.push(file("/w/locked.xml", "keep me", 4)); fs.push(file("/w/secret.xml", doc(0), 2));
  if (r.chance(1, 4)) fs.push(file("/w/out.xml", std::string((size_t)r.range(1, 4000), 'o')));
  auto inval = [&]() -> std::string { int k = (int)r.below(12); if (k < 7) return fn; if (k < 9) return "/w/" + fn; if (k == 9) return r.chance(1, 2) ? "missing.xml" : "secret.xml"; if (k == 10) return r.pick(at); return r.chance(1, 2) ? "sub" : "./" + fn; };
  auto outval = [&]() -> std::string { static const char* V[] = {"out.xml", "/w/o/out.xml", "o/out.xml", "out.xml", "/w/nodir/out.xml", "sub", "./out.xml", "/w/out.xml"}; return V[r.below(8)]; };
  auto dirval = [&]() -> std::string { static const char* V[] = {"/s1", "/s2", "/s3", "/s1/", "sub", ".", "/w", "../s2", "/s2", "/s1", "/s3"}; if (r.chance(1, 14)) return r.chance(1, 2) ? "/nodir" : "/w/locked.xml"; if (r.chance(1, 14)) return "/s4"; return V[r.below(11)]; };
  J& a = p["args"];
  int R = 0;
  if (r.chance(1, 12)) { a.push("-O"); a.push("locked.xml"); pl["x_locked"] = 1; }
  bool anyin = false;
  int n = (int)r.range(0, 6);
  for (int i = 0; i < n; ++i) {
    int k = (int)r.below(10);
    if (k < 4) { a.push("-P"); a.push(dirval()); }
    else if (k < 7) { a.push("-I"); a.push(inval()); anyin = true; }
    else if (k == 7) { R = (int)r.range(-3, 300); a.push("-R"); int k2 = (int)r.below(12); std::string d = S(R < 0 ? -R : R); // the same number may be written in several ways
      a.push((R < 0 ? "-" : k2 == 0 ? "+" : k2 == 1 ? " " : "") + (k2 == 2 ? "0" : k2 == 3 ? "000" : std::string()) + d); }
    else if (!pl.num("x_locked")) { a.push("-O"); a.push(outval()); }
  }
  if (r.chance(1, 40)) { int m = (int)r.range(8, 40); for (int i = 0; i < m; ++i) { a.push("-P"); a.push(dirval()); } }
  if (r.chance(1, 4)) { p["search"] = J::arr(); int m = r.chance(1, 30) ? (int)r.range(10, 40) : (int)r.range(1, 3); for (int i = 0; i < m; ++i) p["search"].push(dirval()); }
  if (r.chance(1, 6)) { p["prepend"] = J::arr(); int m = (int)r.range(1, 2); for (int i = 0; i < m; ++i) p["prepend"].push(dirval()); }
  if (r.chance(1, 2)) p["ask"] = 1;
  if (r.chance(1, 4) || (!anyin && r.chance(1, 2))) p["api_in"] = inval();
  if (r.chance(1, 5)) p["api_out"] = outval();
  if (r.chance(1, 6)) p["api_ret"] = (long)r.range(-2, 9);
  if (r.chance(1, 10)) { static const char* O[] = {"-O", "-I", "-R", "-P"}; a.push(O[r.below(4)]); }
  else if (r.chance(1, 2)) {
    static const char* W[] = {"one", "", "-x", "-OO", "--", "-I ", "two words", "-o", "-1"};
    a.push(W[r.below(9)]);
    int m = (int)r.below(4);
    for (int i = 0; i < m; ++i) { static const char* V[] = {"-O", "out2.xml", "-I", "base.xml", "-R", "5", "-P", "/s1", "x", ""}; a.push(V[r.below(10)]); }
  }
  pl["procs"].push(p);
  Cmd c = model_cmd(pl, pl["procs"].a[0]);
  pl["procs"].a[0]["bodyret"] = r.chance(5, 6) ? c.expected : c.expected + 1;
  pl["procs"].a[0]["outpath"] = c.out.empty() ? "" : sim::norm(c.out, "/w");
  add_phase(pl, phase1({0}));
  return pl;
}
static void c09_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0x909);
  if (g.r.chance(1, 2)) return;
  if (g.r.chance(2, 3)) place(g, pl, dry, 0, {"stat", "stat", "access", "open", "alloc"}, (int)g.r.range(1, 2));
  if (g.r.chance(1, 3)) {
    std::vector<J> acts;
    for (auto& f : pl.at("fs").a) if (!f.num("dir")) { acts.push_back(env("remove", f.str("path"))); acts.push_back(env("chmod", f.str("path"), (long)g.r.below(8))); }
    acts.push_back(env("remove", "/s1")); acts.push_back(env("chmod", "/s2", 0)); acts.push_back(env("chmod", "/w", 0));
    place_env(g, pl, dry, 0, acts, (int)g.r.range(1, 2), {"stat", "access", "open", "io"});
  }
}
static void c09_judge(Judge& j) {
  const J& r = j.proc(0); const J& s = j.spec(0);
  Cmd c = model_cmd(j.plan, s);
  j.nontrivial = s.at("args").size() > 0 || s.has("search");
  bool clean = !harmed(j);
  std::string al; for (auto& a : s.at("args").a) al += " '" + a.s + "'";
  if (!r.num("returned")) { j.bad("no-return", "the run did not return with arguments" + al); return; }
  bool called = r.num("called");
  if (called) { // exactly the remaining arguments
    std::vector<std::string> want = {"prog"}; want.insert(want.end(), c.rest.begin(), c.rest.end());
    std::vector<std::string> got; for (auto& a : r.at("argv").a) got.push_back(a.s);
    if (got != want) { std::string t; for (auto& x : got) t += " '" + x + "'"; j.bad("arguments", "the arguments" + al + " reached the test body as" + t); return; }
  }
  // files opened for reading: the baseline only; for writing: the output only
  Fs fs{j.plan.at("fs"), s.str("cwd", "/w")};
  std::vector<std::string> cand; if (!c.in.empty()) { cand.push_back(fs.abs(c.in)); for (auto& d : c.search) cand.push_back(fs.abs(joined(d, c.in))); }
  std::string outabs = c.out.empty() ? "" : fs.abs(c.out);
  for (auto& o : j.rec.at("ofds").a) {
    const std::string& q = o.str("path");
    if (o.num("w")) { bool named = !clean && q == fs.abs(s.str("api_out")); if (!clean) for (auto& a : s.at("args").a) if (fs.abs(a.s) == q) named = true; if (q != outabs && !named && !(c.out_locked && q == fs.abs(s.str("api_out")))) { j.bad("wrong-output", "arguments" + al + ": the file " + q + " was opened for writing instead of " + (outabs.empty() ? "standard output" : outabs)); return; } }
    else if (c.fails && clean && called) {}
    else if (std::find(cand.begin(), cand.end(), q) == cand.end()) { j.bad("wrong-input", "arguments" + al + ": the file " + q + " was read, which is no place of the baseline"); return; }
    else if (clean && !c.fails && !c.trailing && c.compare && q != c.base && o.num("max") > 0) { j.bad("wrong-input", "arguments" + al + ": the baseline " + q + " was read instead of " + c.base); return; }
  }
  std::string lk; if (j.file("/w/locked.xml", lk) && lk != "keep me" && clean) { j.bad("wrong-output", "the file locked.xml without write permission was changed"); return; }
  if (!clean) { j.probes["c09.fault"]++; if (!called && r.num("ret") == 0) j.bad("not-called-success", "the run returned 0 without calling the test body"); return; }
  if (c.fails || (c.trailing && !called)) {
    j.probes["c09.fail"]++;
    if (called) { j.bad("called", "the test body was called although " + c.why + ", arguments" + al); return; }
    if (r.num("ret") == 0) j.bad("not-called-success", "the run returned 0 although " + (c.why.empty() ? std::string("the test body was not called") : c.why) + ", arguments" + al);
    return;
  }
  if (!called) { if (c.out_locked && r.num("ret") != 0) return; j.bad("not-called", "the test body was not called, arguments" + al + ": " + model::printable(r.str("err"), 200)); return; }
  j.probes[c.compare ? "c09.compare" : "c09.record"]++;
  if (c.search.size() > 1) j.probes["c09.search"]++;
  for (auto& q : r.at("said").o) { // what the test itself says
    bool before = q.first == "before", after = q.first == "after"; const J& o = q.second;
    if (after && outabs == c.base) continue;
    Cmd m = before ? model_cmd(j.plan, s, false) : c;
    auto wrong = [&](const std::string& t) { j.bad("getter", "arguments" + al + ": " + (before ? "before the run" : after ? "after the run" : "while the test runs") + " the test says " + t); };
    if ((o.num("mode") != 0) != m.compare) { wrong(o.num("mode") ? "that it compares, with a baseline that cannot be read" : "that it does not compare, with the baseline " + m.base); return; }
    if (o.num("ret") != m.expected) { wrong("that it expects " + S(o.num("ret"))); return; }
    auto same = [&](const std::string& x, const std::string& y) { return x == y || (!x.empty() && !y.empty() && fs.abs(x) == fs.abs(y)); };
    if (!same(o.str("in"), m.in)) { wrong("that its input is " + o.str("in") + ", not " + m.in); return; }
    if (!same(o.str("out"), m.out) && !c.out_locked) { wrong("that its output is " + o.str("out") + ", not " + m.out); return; }
    std::vector<std::string> ds; std::string l; for (char ch : o.str("dirs")) if (ch == '\n') { ds.push_back(l); l.clear(); } else l += ch;
    bool ok = ds.size() == m.search.size(); for (size_t i = 0; ok && i < ds.size(); ++i) ok = same(ds[i], m.search[i]);
    if (!ok) { wrong("that it searches " + model::printable(o.str("dirs"), 200)); return; }
    j.probes["c09.said"]++;
  }
  if (!r.num("completed")) { j.bad("not-completed", "the run did not complete, arguments" + al + ": " + model::printable(r.str("err"), 200)); return; }
  if (c.out_locked) return; // where the output goes then is not specified
  std::string out = output_of(j, 0);
  long want = 0;
  if (c.compare) {
    std::string bd; for (auto& f : j.plan.at("fs").a) if (f.str("path") == c.base) bd = f.str("data");
    if (outabs == c.base) return; // output and baseline are the same file
    Doc d = model::parse_doc(bd);
    for (auto& x : expect(s, d.es)) if (x.t == model::No) ++want; else if (x.t == model::Maybe) return;
    Doc f = model::parse_fragment(out);
    if (!f.ok || (long)f.es.size() < want || (want == 0 && !f.es.empty())) { j.bad("report", "arguments" + al + ": the report of " + S(want) + " mismatches is not at " + (outabs.empty() ? "standard output" : outabs)); return; }
  } else {
    Doc d = model::parse_doc(out);
    if (!d.ok || d.es.size() != s.at("ops").size()) { j.bad("recording", "arguments" + al + ": the recording is not at " + (outabs.empty() ? "standard output" : outabs)); return; }
  }
  if (!outabs.empty() && !r.str("out").empty()) { j.bad("wrong-output", "arguments" + al + ": output went to standard output instead of " + outabs); return; }
  int br = (int)s.num("bodyret");
  long exp = br == c.expected ? want : br;
  if (r.num("ret") != exp) j.bad("result", "arguments" + al + ": the run returned " + S(r.num("ret")) + " instead of " + S(exp) + " (expected return value " + S(c.expected) + ", test body returned " + S(br) + ", baseline " + (c.compare ? c.base : "none") + ")");
}
static RegProp rC09({"C09", c09_gen, c09_place, nullptr, false, c09_judge, true});

// ------------------------------------------------------------------ C10
static J c10_gen(uint64_t seed) {
  Gen g(seed); Rng& r = g.r;
  J pl = gen::plan("C10", seed, g);
  int n = r.chance(1, 3) ? 3 : 2;
  std::vector<int> ids;
  for (int i = 0; i < n; ++i) {
    Gen h(r.next());
    J p = proc(h);
    std::string d = "/w/p" + S(i);
    pl["fs"].push(dir(d));
    p["cwd"] = "/w"; p["host"] = "simhost" + S(i); p["clock"] = 1000000000L + 100000007L * i;
    p["ops"] = h.ops(1, r.chance(1, 6) ? 12 : 5);
    p["outpath"] = d + "/out.xml";
    p["args"].push("-O"); p["args"].push(d + "/out.xml");
    if (r.chance(2, 3)) {
      tol_of(h, p);
      if (r.chance(1, 3)) { J o = J::obj(); o["op"] = "m"; o["kind"] = "plain"; o["name"] = "text"; o["text"] = h.lines(10); p["ops"].push(o); }
      std::vector<Entry> es = entries_of(p.at("ops")); perturb(h, es, p.at("ops"), tolv(p), (int)h.r.range(0, 4));
      for (auto& e : es) if (e.type == "text/plain" && e.name == "text" && r.chance(1, 2)) e.content = h.lines(10);
      Rng q(r.next());
      pl["fs"].push(file(d + "/base.xml", r.chance(1, 2) ? write_doc(es, nullptr) : write_doc(es, &q)));
      if (r.chance(1, 3)) { p["args"].push("-P"); p["args"].push(d); p["api_in"] = "base.xml"; } else { p["args"].push("-I"); p["args"].push(d + "/base.xml"); }
      if (r.chance(1, 5)) { J o = J::obj(); o["op"] = "m"; o["kind"] = "ftext"; o["name"] = "f"; o["text"] = d + "/f.txt"; std::string data = h.lines(20); pl["fs"].push(file(d + "/f.txt", data)); pl["fs"].push(file(d + "/b/f.txt", r.chance(1, 2) ? data : data + "!")); pl["fs"].push(dir(d + "/b")); J a = J::arr(); a.push("-P"); a.push(d + "/b"); for (auto& x : p.at("args").a) a.push(x); p["args"] = a; p["ops"].push(o); es.push_back(entry_of(meas_of(o))); for (auto& f : pl["fs"].a) if (f.str("path") == d + "/base.xml") f["data"] = write_doc(es, nullptr); }
    }
    if (r.chance(1, 6)) { J o = J::obj(); o["op"] = "throw"; o["what"] = "runtime_error"; p["ops"].push(o); }
    if (r.chance(1, 6)) { p["bodyret"] = 3; if (r.chance(1, 2)) p["api_ret"] = 3; }
    if (r.chance(1, 5)) p["args"].push("x" + S(i));
    p["locale"] = 0L; pl["procs"].push(p); ids.push_back(i);
  }
  pl["trace"] = 1;
  if (r.chance(1, 5)) { for (size_t i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[r.below(i)]); J ph = J::obj(); ph["groups"] = J::arr(); for (int i : ids) ph["groups"].push(phase1({i}).at("groups").a[0]); add_phase(pl, ph); }
  else add_phase(pl, phase1(ids, true));
  return pl;
}
static J c10_ref(const J& pl) { J p = pl; p["phases"] = J::arr(); for (size_t i = 0; i < pl.at("procs").size(); ++i) add_phase(p, phase1({(int)i})); return p; }
static void c10_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0xA0A); Rng& r = g.r;
  J& ph = pl["phases"].a[0];
  if (ph.at("groups").a[0].num("conc")) {
    std::vector<int> order; for (auto& x : ph.at("groups").a[0].at("procs").a) order.push_back((int)x.i);
    int n = (int)order.size();
    std::vector<long> pos(n, 0), tot(n); std::vector<const J*> sh(n);
    for (int i = 0; i < n; ++i) { tot[i] = dry.at("phases").a[order[i]].num("steps"); sh[i] = &dry.at("phases").a[order[i]].at("shared_steps"); }
    J pre = J::arr(); long t = 0; int cur = 0;
    int k = (int)r.range(1, r.chance(1, 4) ? 60 : 8);
    bool burst = r.chance(1, 3); // short time slices
    for (int q = 0; q < k; ++q) {
      long left = tot[cur] - pos[cur]; if (left <= 1) { cur = (cur + 1) % n; continue; }
      long d;
      if (r.chance(7, 10) && sh[cur]->size()) { size_t lo = 0; while (lo < sh[cur]->size() && sh[cur]->a[lo].i <= pos[cur]) ++lo; if (lo >= sh[cur]->size()) d = 1 + (long)r.below(left); else { size_t span = burst ? std::min<size_t>(sh[cur]->size() - lo, 12) : sh[cur]->size() - lo; d = sh[cur]->a[lo + r.below(span)].i - pos[cur] + (long)r.below(3); } }
      else d = burst ? 1 + (long)r.below(std::min<long>(left, 200)) : 1 + (long)r.below(left);
      if (d < 1) d = 1;
      t += d; pos[cur] += d;
      int want = (int)r.below(n - 1); int nx = 0, c = 0;
      for (int i = 0; i < n; ++i) if (i != cur) { if (c == want) nx = i; ++c; }
      J e = J::arr(); e.push(t); e.push((long)want); pre.push(e);
      cur = nx;
    }
    ph["preempt"] = pre;
  }
  if (r.chance(1, 5)) place(g, pl, dry, 0, {"alloc", "write", "read", "open", "close"}, 1);
}
static void c10_judge(Judge& j) {
  j.nontrivial = j.rec.num("switches") > 0 || j.plan.at("phases").a[0].at("groups").size() > 1;
  bool faulty = false; for (auto& f : j.plan.at("faults").a) if (f.num("proc") == 0) faulty = true;
  for (size_t i = 0; i < j.plan.at("procs").size(); ++i) {
    if (faulty && i == 0) continue;
    const J &a = j.rec.at("procs").a[i], &b = j.ref.at("procs").a[i];
    std::string who = "test " + S(i);
    if (a.has("escaped")) { j.bad("escaped", who + ": " + a.str("escaped")); continue; }
    for (auto k : {"returned", "ret", "called", "completed", "open_after"}) if (a.num(k, -77) != b.num(k, -77)) { j.bad(std::string("differs-") + k, who + " has " + k + " " + S(a.num(k, -77)) + ", alone it has " + S(b.num(k, -77)) + ": " + model::printable(a.str("err"), 200)); return; }
    if (a.str("out") != b.str("out")) { j.bad("differs-stdout", who + " printed " + model::printable(a.str("out"), 200) + ", alone " + model::printable(b.str("out"), 200)); return; }
    std::string x, y; Judge q(j.plan, j.ref, j.ref);
    std::string o = j.spec((int)i).str("outpath");
    bool hx = j.file(o, x), hy = q.file(o, y);
    if (hx != hy || x != y) { size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) ++k; k = k > 20 ? k - 20 : 0; j.bad("differs-output", who + " wrote ..." + model::printable(x.substr(std::min(k, x.size())), 160) + ", alone ..." + model::printable(y.substr(std::min(k, y.size())), 160)); return; }
  }
}
static RegProp rC10({"C10", c10_gen, c10_place, c10_ref, true, c10_judge, true});

// ------------------------------------------------------------------ C11
static std::string child_text(Gen& g) {
  int k = (int)g.r.below(6);
  if (k == 0) return "";
  if (k == 1) { static const char* T[] = {"<a>&amp;</a>\n", "]]>", "\r\n\r\n", "\t", " ", "\n", "<![CDATA[x]]>", "&#10;"}; return T[g.r.below(8)]; }
  if (g.r.chance(1, 60)) { std::string s; long n = g.r.chance(1, 2) ? 65536 + g.r.range(-1, 1) : g.r.range(10000, 150000); for (long i = 0; i < n; ++i) s += i % 53 == 52 ? '\n' : (char)(33 + (i * 7 + i / 53) % 90); return s; }
  if (k == 2) { std::string s; long n = g.r.range(500, 9000); for (long i = 0; i < n; ++i) s += i % 61 == 60 ? '\n' : (char)(32 + g.r.below(95)); return s; }
  return g.r.chance(1, 2) ? g.lines(8) : g.str(200);
}
static J chunks_of(Gen& g, const std::string& out, const std::string& err) {
  J c = J::arr(); size_t a = 0, b = 0; int style = (int)g.r.below(3);
  while (a < out.size() || b < err.size()) {
    bool e = b < err.size() && (a >= out.size() || g.r.chance(1, 2));
    const std::string& s = e ? err : out; size_t& p = e ? b : a;
    size_t n = style == 0 ? s.size() - p : style == 1 ? 1 + g.r.below(std::min<size_t>(s.size() - p, 5)) : 1 + g.r.below(s.size() - p);
    if (c.size() > 300) n = s.size() - p;
    J x = J::obj(); x["pipe"] = e ? "err" : "out"; x["data"] = s.substr(p, n); x["ms"] = (long)g.r.below(50); if (g.r.chance(1, 40)) x["ms"] = (long)g.r.range(1000, 90000000);
    c.push(x); p += n;
  }
  return c;
}
static J c11_gen(uint64_t seed) {
  Gen g(seed); Rng& r = g.r;
  J pl = gen::plan("C11", seed, g);
  J cmd = J::arr();
  static const char* C[] = {"/bin/tool", "cat", "./a b", "tool<&>"};
  cmd.push(C[r.below(4)]);
  int n = (int)r.below(5);
  for (int i = 0; i < n; ++i) { static const char* V[] = {"-O", "-I", "-R", "-P", "7", "", "two words", "\"q\"", "a&b", "--x=y"}; cmd.push(r.chance(1, 4) ? g.str(30) : std::string(V[r.below(10)])); }
  if (r.chance(1, 40)) { int m = (int)r.range(20, 300); for (int i = 0; i < m; ++i) cmd.push("arg" + S(i)); }
  if (r.chance(1, 40)) cmd.push(std::string((size_t)r.range(1000, 20000), 'w'));
  for (auto& c : cmd.a) { std::string t; for (char ch : c.s) if (ch) t += ch; c = t; }
  if (r.chance(1, 30)) cmd = J::arr();
  static const int CODE[] = {0, 0, 0, 1, 2, 3, 77, 126, 127, 255};
  J child = J::obj();
  std::string out = child_text(g), err = r.chance(1, 2) ? child_text(g) : "";
  bool bin = r.chance(1, 10); // bytes XML cannot hold: nothing but "never equal to another output" is claimed
  if (bin) { pl["x_binary"] = 1; int m = (int)r.range(1, 3); for (int i = 0; i < m; ++i) out.insert(out.begin() + r.below(out.size() + 1), "\0\0\1\b\x1b\x7f\x80\xff"[r.below(8)]); out += g.str(10); }
  child["chunks"] = chunks_of(g, out, err);
  int e = (int)r.below(12);
  child["end"] = e == 0 ? "error" : e == 1 ? "exception" : "exit";
  int code = CODE[r.below(10)]; child["code"] = code; child["exc"] = (long)r.range(1, 5);
  int R = r.chance(1, 3) ? code : r.chance(1, 4) ? (int)r.below(4) : 0;
  J p = J::obj(); p["kind"] = "pipe"; p["cwd"] = "/w"; p["host"] = "simhost"; p["clock"] = 1000000000L; p["seed"] = (long)r.below(1u << 30); p["split"] = r.chance(1, 2) ? 0L : (long)r.range(1, 3);
  J a = J::arr();
  auto opts = [&](J x) { if (R || r.chance(1, 8)) { x.push("-R"); x.push(S(R)); } return x; };
  a.push("-O"); a.push("/w/rec.xml");
  p["args"] = opts(a); p["cmd"] = cmd; p["child"] = child; p["outpath"] = "/w/rec.xml"; p["x_R"] = R;
  pl["procs"].push(p);
  add_phase(pl, phase1({0}));
  if (r.chance(1, 2)) { // compare with the recording
    J q = p; J ch2 = child;
    std::string o2 = out;
    int d = (int)r.below(6);
    if (d == 0) o2 += "x"; else if (d == 1 && !o2.empty()) o2.pop_back(); else if (d == 2 && !o2.empty()) o2[r.below(o2.size())] ^= 1;
    if (bin) { if (r.chance(1, 2) && !o2.empty()) o2.back() ^= 1; }
    else for (char& c : o2) if ((unsigned char)c < 32 && c != '\n' && c != '\r' && c != '\t') c = '?';
    if (!bin) for (char& c : o2) if ((unsigned char)c > 126) c = '?';
    ch2["chunks"] = chunks_of(g, o2, r.chance(1, 2) ? child_text(g) : err);
    q["child"] = ch2; q["outpath"] = "/w/cmp.xml";
    J b = J::arr(); b.push("-O"); b.push("/w/cmp.xml"); b.push("-I"); b.push("/w/rec.xml"); q["args"] = opts(b);
    q["x_same"] = o2 == out;
    q["seed"] = (long)r.below(1u << 30);
    pl["procs"].push(q); add_phase(pl, phase1({1}));
  }
  return pl;
}
static void c11_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0xB0B);
  int n = (int)pl.at("procs").size();
  if (g.r.chance(1, 6)) { J f = J::obj(); f["proc"] = (long)g.r.below(n); f["cls"] = "pipe"; f["nth"] = (long)g.r.below(2); f["act"] = "errno"; f["arg"] = (long)(g.r.chance(1, 2) ? EAGAIN : ENOMEM); pl["faults"].push(f); }
  if (g.r.chance(1, 5)) place(g, pl, dry, (int)g.r.below(n), {"alloc", "write", "close", "open"}, 1);
  for (int i = 0; i < n; ++i) if (g.r.chance(1, 3)) place(g, pl, dry, i, {"write:short", "write:eintr", "read:short"}, 2);
}
static void c11_judge(Judge& j) {
  bool rec_ok = false;
  for (size_t i = 0; i < j.plan.at("procs").size(); ++i) {
    const J& r = j.proc((int)i); const J& s = j.spec((int)i);
    if (r.is_null()) return;
    if (!r.num("returned")) { j.bad("no-return", "tfPipeToXML did not return: " + r.str("escaped")); return; }
    bool io = false, startfail = false;
    for (auto& f : j.rec.at("fired").o) { if (!f.first.compare(0, 5, "pipe/")) continue; if (!benign(f.first)) io = true; }
    for (auto& f : j.plan.at("faults").a) if (f.str("cls") == "pipe" && f.num("proc") == (long)i) startfail = true;
    const J& ch = s.at("child");
    bool nocmd = s.at("cmd").size() == 0;
    std::string end = ch.str("end");
    bool exited = end == "exit" && !nocmd && !startfail;
    int code = (int)ch.num("code"), R = (int)s.num("x_R");
    j.nontrivial = true;
    if (r.num("executed") > 0 && !nocmd) {
      std::vector<std::string> w, got; for (auto& x : s.at("cmd").a) w.push_back(x.s); for (auto& x : r.at("cmd").a) got.push_back(x.s);
      if (w != got || r.num("ncmds") != 1) { j.bad("command", "the command was started with " + S(got.size()) + " words instead of the " + S(w.size()) + " given"); return; }
      if (r.num("executed") > 1) { j.bad("command", "the command was started " + S(r.num("executed")) + " times"); return; }
    }
    if (exited && !io && !r.num("executed") && !(i && j.plan.num("x_binary"))) { // (such a recording may be no document)
      j.bad("command", "the command was not started: " + model::printable(r.str("err"), 200)); return; }
    if (!exited) { j.probes["c11.not-exited"]++; if (r.num("ret") == 0) { j.bad("failure-hidden", "the result is success although the command " + std::string(end == "exception" ? "was killed by a signal" : "could not be started")); return; } continue; }
    j.probes["c11.exited"]++;
    std::string want; for (auto& c : ch.at("chunks").a) if (c.str("pipe") == "out") want += c.str("data");
    if (i == 0) {
      if (r.num("ret") == 0 || !io) {
        // recording is claimed to be good
        if (!io && code != R && r.num("ret") != code) { j.bad("result", "the command exited with " + S(code) + " but the result is " + S(r.num("ret"))); return; }
        if (!io && code == R && r.num("ret") != 0) { j.bad("result", "the command exited with the expected value " + S(code) + " but the result is " + S(r.num("ret")) + " " + model::printable(r.str("err"), 100)); return; }
        if (r.num("ret") == 0 && code != R && code != 0) { j.bad("result", "the result is success but the command exited with " + S(code) + " instead of " + S(R)); return; }
        if (j.plan.num("x_binary")) { rec_ok = true; continue; }
        std::string d; j.file("/w/rec.xml", d, (int)r.num("phase")); Doc doc = model::parse_doc(d);
        if (!doc.ok || doc.es.size() != 1) { if (!io || code == R) j.bad("recording", "the recording does not hold one measurement (" + doc.err + ")"); return; }
        const Entry& e = doc.es[0];
        std::string c = e.content; if (e.enc == "base64") { std::string t; if (model::b64_decode(c, t)) c = t; }
        if (e.name != "stdout" || e.type != "text/plain" || e.elem != "DartMeasurement") { j.bad("recording", "the measurement is " + e.type + " \"" + e.name + "\""); return; }
        if (c != want) { size_t k = 0; while (k < c.size() && k < want.size() && c[k] == want[k]) ++k; j.bad("content", "the recorded output (" + S(c.size()) + " bytes) is not the " + S(want.size()) + " bytes the command wrote to standard output, first difference at " + S(k) + ": recorded " + model::printable(c.substr(k), 60) + " written " + model::printable(want.substr(k), 60)); return; }
        rec_ok = true;
      }
    } else if (rec_ok && !io) {
      if (j.plan.num("x_binary")) { j.probes["c11.binary"]++; if (r.num("ret") == 0 && code == R && !s.num("x_same")) { j.bad("verdict", "an output which is not the recorded one was found equal"); return; } continue; }
      long exp = code != R ? code : s.num("x_same") ? 0 : 1;
      j.probes[s.num("x_same") ? "c11.same" : "c11.changed"]++;
      if (r.num("ret") != exp) { j.bad("verdict", "comparing " + std::string(s.num("x_same") ? "the same" : "different") + " output (exit value " + S(code) + ", expected " + S(R) + ") gave " + S(r.num("ret")) + " instead of " + S(exp) + " " + model::printable(r.str("err"), 100)); return; }
    }
  }
}
static RegProp rC11({"C11", c11_gen, c11_place, nullptr, false, c11_judge, true});

// ------------------------------------------------------------------ C14
static J c14_gen(uint64_t seed) {
  Gen g(seed); Rng& r = g.r;
  J pl = gen::plan("C14", seed, g);
  pl["history"] = 1;
  J& fs = pl["fs"];
  std::vector<std::string> ps = {"/w"}, ds = {"/w", "/"};
  auto nm = [&] { static const char* N[] = {"a", "b", "c.txt", "file one", ".h", "x.y.z", "A"}; if (r.chance(1, 40)) return std::string((size_t)r.range(200, 255), 'n'); return std::string(N[r.below(7)]) + (r.chance(1, 3) ? S((long)r.below(3)) : ""); };
  int n = (int)r.range(2, 14);
  for (int i = 0; i < n; ++i) {
    std::string p = r.pick(ds); p = (p == "/" ? "" : p) + "/" + nm();
    bool dup = false; for (auto& q : ps) if (q == p) dup = true;
    if (dup || p == "/w") continue;
    int mode = r.chance(1, 3) ? (int)r.below(8) : 7;
    if (r.chance(1, 3)) { fs.push(dir(p, mode)); ds.push_back(p); } else fs.push(file(p, g.str(20), r.chance(1, 3) ? (int)r.below(8) : 6));
    ps.push_back(p);
  }
  if (r.chance(1, 12)) { std::string p = "/w"; while (p.size() < 1100) p += "/" + std::string(200, 'd'); fs.push(dir(p)); ds.push_back(p); ps.push_back(p); pl["x_long"] = 1; }
  if (r.chance(1, 4)) { std::string d = r.pick(ds); int k = r.chance(1, 12) ? (int)r.range(60, 600) : (int)r.range(5, 40); for (int i = 0; i < k; ++i) fs.push(file((d == "/" ? "" : d) + "/many" + S(i), "")); }
  J p = J::obj(); p["kind"] = "query"; p["cwd"] = r.chance(2, 3) ? std::string("/w") : r.pick(ds); p["host"] = "h"; p["clock"] = 1000000000L; p["seed"] = (long)r.below(1u << 30); p["split"] = 0L;
  if (pl.num("x_long") && r.chance(1, 2)) p["cwd"] = ds.back();
  auto path = [&]() -> std::string {
    int k = (int)r.below(14);
    std::string q = r.pick(ps);
    if (k < 6) return q;
    if (k < 9) return !q.compare(0, 3, "/w/") ? q.substr(3) : q;
    if (k == 9) return q + "/";
    if (k == 10) return r.chance(1, 2) ? "." : "..";
    if (k == 11) return q + "/" + nm();
    if (k == 12) return r.chance(1, 2) ? std::string("") : std::string("./") + nm();
    return "nothere";
  };
  J qs = J::arr(); int m = (int)r.range(1, 6); bool reuse = r.chance(1, 3);
  J ev = J::obj();
  for (int i = 0; i < m; ++i) {
    static const char* K[] = {"exists", "file", "dir", "readable", "writable", "executable", "list", "list", "list", "search", "search", "cwd", "cwd", "chdir", "env"};
    J q = J::obj(); std::string k = K[r.below(15)];
    q["q"] = k; q["path"] = k == "list" || k == "chdir" ? (r.chance(3, 4) ? r.pick(ds) : path()) : path();
    if (k == "search") {
      J l = J::arr(); int c = (int)r.range(0, 4); for (int z = 0; z < c; ++z) l.push(r.chance(3, 4) ? r.pick(ds) : path()); q["list"] = l;
      std::string f = r.pick(ps); if (r.chance(3, 4)) { size_t s = f.rfind('/'); f = f.substr(s + 1); } q["path"] = f;
      if (r.chance(1, 2) && ps.size() > 2) { // the same name in several directories
        for (auto& d : l.a) if (r.chance(1, 2)) { std::string ab = sim::norm(d.s, p.str("cwd")) + "/common"; bool dup = false; for (auto& e : fs.a) if (e.str("path") == ab) dup = true; if (!dup) { fs.push(r.chance(1, 5) ? dir(ab) : file(ab, "")); } }
        q["path"] = "common";
      }
    }
    if (k == "env") { static const char* E[] = {"PATH", "SEARCH", "EMPTY"}; q["path"] = E[r.below(3)]; }
    if (qs.size() && k != "search" && k != "env" && r.chance(1, 3)) { const J& o = r.pick(qs.a); if (o.str("q") != "env") q["path"] = o.str("path"); } // once more
    if (reuse && r.chance(2, 3)) { q["via"] = (long)r.range(1, 4); q["of"] = (long)r.below(8); }
    qs.push(q);
  }
  static const char* V[] = {"", "/a", "/a:/b", ":/a", "/a:", "a::b", ":", "/usr/bin:/bin:."};
  ev["PATH"] = V[r.below(8)]; if (r.chance(1, 2)) ev["SEARCH"] = V[r.below(8)];
  p["env"] = ev; p["qs"] = qs; p["args"] = J::arr(); p["ops"] = J::arr();
  pl["x_paths"] = J::arr(); for (auto& x : ps) pl["x_paths"].push(x);
  pl["procs"].push(p); add_phase(pl, phase1({0}));
  return pl;
}
static void c14_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0xE0E);
  int k = (int)g.r.below(5);
  if (k == 0) return;
  if (k <= 2) place(g, pl, dry, 0, {"stat", "access", "opendir", "readdir", "readdir", "closedir", "getcwd", "getcwd", "chdir", "alloc"}, (int)g.r.range(1, 2));
  if (k >= 2) {
    std::vector<J> acts; std::vector<std::string> ps; for (auto& x : pl.at("x_paths").a) ps.push_back(x.s);
    for (int i = 0; i < 8; ++i) {
      std::string p = g.r.pick(ps), d = g.r.pick(ps);
      acts.push_back(env("remove", p)); acts.push_back(env("chmod", p, (long)g.r.below(8))); acts.push_back(env("put", p, 0, "x")); acts.push_back(env("mkdir", p));
      { J a = env("put", d + "/new" + S((long)g.r.below(3)), 0, "y"); acts.push_back(a); }
      { J a = env("rename", p); a["to"] = d + "/moved"; if (d.compare(0, p.size(), p)) acts.push_back(a); }
    }
    if (g.r.chance(1, 6)) acts.push_back(env("chdir", g.r.pick(ps)));
    if (g.r.chance(1, 6)) acts.push_back(env("setenv", "PATH", 0, "/new:/list"));
    place_env(g, pl, dry, 0, acts, (int)g.r.range(1, 3), {"stat", "access", "opendir", "readdir", "closedir", "getcwd", "chdir", "io", "op", "op"});
  }
}
static void c14_judge(Judge& j) {
  const J& r = j.proc(0);
  j.nontrivial = true;
  if (!r.num("returned")) { j.bad("no-return", "a query did not return: " + r.str("escaped")); return; }
  for (auto& b : r.at("bad").a) j.bad(b.str("key"), b.str("msg"));
}
static RegProp rC14({"C14", c14_gen, c14_place, nullptr, false, c14_judge, true});

// ------------------------------------------------------------------ C15
static J c15_gen(uint64_t seed) {
  Gen g(seed); Rng& r = g.r;
  J pl = gen::plan("C15", seed, g);
  J p = proc(g);
  p["ops"] = g.ops(1, r.chance(1, 5) ? 30 : 6);
  tol_of(g, p);
  std::vector<Entry> es = entries_of(p.at("ops"));
  perturb(g, es, p.at("ops"), tolv(p), r.chance(1, 2) ? 0 : (int)r.range(1, 3));
  for (auto& e : es) { e.comp = "none"; if (e.enc != "none") e.enc = "none"; }
  pl["x_b64"] = 0L;
  std::vector<Entry> e1 = es, e2 = es;
  bool b64 = r.chance(1, 3);
  if (b64) for (size_t i = 0; i < es.size(); ++i) if (es[i].type.compare(0, 5, "text/") == 0 && es[i].elem == "DartMeasurement" && !es[i].content.empty() && r.chance(2, 3)) {
    e1[i].enc = "base64"; e1[i].content = model::b64_encode(es[i].content, r.chance(1, 2) ? 0 : 4 * (int)r.range(1, 19));
    pl["x_b64"] = 1L;
    if (r.chance(1, 2)) { e2[i].enc = "base64"; e2[i].content = model::b64_encode(es[i].content, 76); }
  }
  Rng q1(r.next()), q2(r.next());
  static const long MOD[] = {-1, -1, -1, 0, 1, 1023};
  auto sz = [&]() -> long { long m = MOD[r.below(6)]; return m; };
  std::string d1 = write_doc(e1, r.chance(1, 3) ? nullptr : &q1, sz()), d2 = write_doc(e2, &q2, sz());
  pl["fs"].push(file("/w/one.xml", d1)); pl["fs"].push(file("/w/two.xml", d2));
  set_ret(g, p);
  p["bodyret"] = expected_ret(p);
  J a = p, b = p;
  auto setup = [&](J& x, const std::string& f, const std::string& o) { J n = J::arr(); n.push("-O"); n.push(o); n.push("-I"); n.push(f); for (auto& y : x.at("args").a) n.push(y); x["args"] = n; x["outpath"] = o; x["split"] = (long)r.below(4); x["seed"] = (long)r.below(1u << 30); };
  setup(a, "/w/one.xml", "/w/o1.xml"); setup(b, "/w/two.xml", "/w/o2.xml");
  pl["procs"].push(a); pl["procs"].push(b);
  add_phase(pl, phase1({0})); add_phase(pl, phase1({1}));
  return pl;
}
static void c15_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0xF0F);
  for (int i = 0; i < 2; ++i) if (g.r.chance(1, 2)) place(g, pl, dry, i, {"read:short", "read:eintr", "read:short"}, (int)g.r.range(1, 4));
}
static void c15_judge(Judge& j) {
  auto data = [&](const char* n) { for (auto& f : j.plan.at("fs").a) if (f.str("path") == n) return f.str("data"); return std::string(); };
  Doc d1 = model::parse_doc(data("/w/one.xml")), d2 = model::parse_doc(data("/w/two.xml"));
  if (!d1.ok || !d2.ok || d1.odd || d2.odd) return;
  const J &a = j.proc(0), &b = j.proc(1);
  j.nontrivial = true;
  for (int i = 0; i < 2; ++i) if (!j.proc(i).num("completed")) { j.bad("not-completed", "the run with the " + std::string(i ? "second" : "first") + " layout did not complete: " + model::printable(j.proc(i).str("err"), 200)); return; }
  if (a.num("ret") != b.num("ret")) { j.bad("verdict", "one layout of the baseline (" + S(data("/w/one.xml").size()) + " bytes) gives " + S(a.num("ret")) + ", another (" + S(data("/w/two.xml").size()) + " bytes) " + S(b.num("ret"))); return; }
  long lo = 0, hi = 0; for (auto& x : expect(j.spec(0), d1.es)) { if (x.t == model::No) ++lo, ++hi; else if (x.t == model::Maybe) ++hi; }
  if (a.num("ret") < lo || a.num("ret") > hi) { j.bad("verdict", "the verdict is " + S(a.num("ret")) + " for " + S(lo) + ".." + S(hi) + " mismatching measurements"); return; }
  j.probes[lo ? "c15.mismatch" : "c15.match"]++; if (j.plan.num("x_b64")) j.probes["c15.base64"]++;
  std::string o1, o2; j.file("/w/o1.xml", o1); j.file("/w/o2.xml", o2);
  if (j.plan.num("x_b64")) { // the report repeats the baseline as it is encoded
    Doc f1 = model::parse_fragment(o1), f2 = model::parse_fragment(o2);
    if (!f1.ok || !f2.ok || f1.es.size() != f2.es.size()) { j.bad("report", "the layouts give different reports"); return; }
    for (size_t i = 0; i < f1.es.size(); ++i) {
      Entry &x = f1.es[i], &y = f2.es[i];
      for (Entry* e : {&x, &y}) if (e->enc == "base64") { std::string t; if (model::b64_decode(e->content, t)) e->content = t; }
      bool diff = !x.name.compare(0, 11, "Difference ");
      if (x.name != y.name || x.type != y.type || (!diff && x.content != y.content)) { j.bad("report", "the layouts give different reports: " + model::printable(x.name) + " and " + model::printable(y.name)); return; }
      (void)diff;
    }
    return;
  }
  if (o1 != o2) j.bad("report", "the layouts give different reports: " + model::printable(o1, 200) + " and " + model::printable(o2, 200));
}
static RegProp rC15({"C15", c15_gen, c15_place, nullptr, false, c15_judge, true});
