// Properties of the record / compare cycle: C01 .. C08.
#include "common.h"
using namespace prop;

// ------------------------------------------------------------------ shared
namespace prop {
// ops that keep clear of characters the documents cannot carry
static std::vector<Entry> make_entries(Gen& g, const J& p, int nper) {
  std::vector<Entry> es = entries_of(p.at("ops"));
  perturb(g, es, p.at("ops"), tolv(p), nper);
  return es;
}
static J compare_plan(const char* id, uint64_t seed, Gen& g, bool lots) {
  J pl = gen::plan(id, seed, g);
  J p = proc(g);
  p["ops"] = g.ops(0, lots ? 8 : 6);
  tol_of(g, p);
  std::vector<Entry> es = make_entries(g, p, g.r.chance(1, 2) ? 0 : (int)g.r.range(1, 3));
  std::string doc;
  if (g.r.chance(1, 3)) doc = write_doc(es, nullptr); else { Rng r(g.r.next()); doc = write_doc(es, &r, r.chance(1, 3) ? (long)r.below(3) - 1 + 1024 * (long)r.chance(1, 2) : -1); }
  pl["x_base"] = place_base(g, pl, p, doc).path;
  set_ret(g, p);
  out_to(g, p, "/w/out.xml");
  extra_args(g, p);
  pl["procs"].push(p);
  add_phase(pl, phase1({0}));
  return pl;
}
void set_base_data(J& plan, const std::string& data) { for (auto& f : plan["fs"].a) if (f.str("path") == plan.str("x_base") && !f.num("dir")) f["data"] = data; }
std::string base_data(const J& plan) { for (auto& f : plan.at("fs").a) if (f.str("path") == plan.str("x_base") && !f.num("dir")) return f.str("data"); return ""; }
std::vector<J> base_envs(Gen& g, const J& plan) {
  std::string b = plan.str("x_base"), d = base_data(plan);
  std::vector<J> v;
  v.push_back(env("remove", b));
  v.push_back(env("truncate", b, (long)g.r.below(d.size() + 1)));
  v.push_back(env("truncate", b, 0));
  v.push_back(env("overwrite", b, 0, g.corrupt(d)));
  v.push_back(env("put", b, 0, g.r.chance(1, 2) ? "<output></output>" : g.corrupt(d)));
  v.push_back(env("append", b, 0, g.r.chance(1, 2) ? "\n" : "<DartMeasurement name=\"x\" type=\"text/string\">x</DartMeasurement>"));
  v.push_back(env("chmod", b, 0));
  v.push_back(env("chdir", "/"));
  { J a = env("rename", b); a["to"] = "/w/elsewhere.xml"; v.push_back(a); }
  v.push_back(env("poke", b, (long)g.r.below(d.size() + 1)));
  v.push_back(env("chmod", "/w", 0));
  return v;
}
} // namespace prop

// ------------------------------------------------------------------ C01
// a history with so many mismatches that a narrow counter would wrap
static void many_mismatches(Gen& g, J& pl) {
  static const int N[] = {255, 256, 257, 512, 300, 768};
  int n = g.r.chance(1, 3) ? (int)g.r.range(200, 800) : N[g.r.below(6)], same = g.r.chance(1, 3) ? (int)g.r.range(1, 5) : 0;
  J& p = pl["procs"].a[0];
  p["ops"] = J::arr();
  J b = J::arr();
  for (int i = 0; i < n + same; ++i) { J o = J::obj(); o["op"] = "m"; o["kind"] = "int"; o["i"] = (long)i; o["text"] = S(i); o["tol"] = 0; o["name"] = "m" + S(i); p["ops"].push(o); if (i >= same) o["text"] = S(i + 1); b.push(o); }
  std::vector<Entry> es = entries_of(b);
  int k = (int)g.r.below(3);
  if (k == 1) es.resize(same); // no entries: all of them are unmatched
  if (k == 2) for (size_t i = same; i < es.size(); ++i) es[i].name += "?";
  set_base_data(pl, write_doc(es, nullptr));
  p["bodyret"] = expected_ret(p);
}
static J c01_gen(uint64_t seed) {
  Gen g(seed);
  J pl = compare_plan("C01", seed, g, false);
  if (g.r.chance(1, 40)) { many_mismatches(g, pl); return pl; }
  if (g.r.chance(1, 3)) set_base_data(pl, g.corrupt(base_data(pl)));
  J& p = pl["procs"].a[0];
  if (g.r.chance(1, 6)) { J o = J::obj(); o["op"] = "throw"; static const char* T[] = {"runtime_error", "bad_alloc", "int", "custom", "ios_failure", "cstr"}; o["what"] = T[g.r.below(6)]; auto& a = p["ops"].a; a.insert(a.begin() + g.r.below(a.size() + 1), o); p["bodyret"] = expected_ret(p); }
  if (g.r.chance(1, 4)) { J o = J::obj(); o["op"] = "env"; o["a"] = g.r.pick(base_envs(g, pl)); auto& a = p["ops"].a; a.insert(a.begin() + g.r.below(a.size() + 1), o); }
  return pl;
}
static void c01_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0x101);
  if (g.r.chance(1, 6)) return;
  if (g.r.chance(3, 5)) place(g, pl, dry, 0, {"read", "read", "read:short", "read:eintr", "open", "lseek", "fstat", "stat", "access", "close", "alloc", "alloc"}, (int)g.r.range(1, 3));
  if (g.r.chance(1, 2)) place_env(g, pl, dry, 0, base_envs(g, pl), (int)g.r.range(1, 2), {"read", "open", "stat", "access", "op", "close", "lseek", "fstat", "io"});
}
static void c01_judge(Judge& j) {
  const J& r = j.proc(0); const J& s = j.spec(0);
  if (!r.num("returned")) return;
  bool expected = s.num("bodyret") == expected_ret(s);
  if (r.num("completed") && !expected) return; // the unexpected return value is the result
  if (j.fired_any() || j.plan.at("procs").size()) j.nontrivial = true;
  if (r.num("ret") != 0) { j.probes["c01.nonzero"]++; return; }
  j.probes["c01.success"]++;
  if (!r.num("completed")) { j.bad("not-completed", "run returned 0 although the test body did not complete"); return; }
  std::string fail = "no file was opened for reading";
  bool ok = false;
  std::vector<std::string> cand = {j.plan.str("x_base")};
  for (auto& o : j.rec.at("ofds").a) {
    if (o.num("proc") != 0 || !o.num("r")) continue;
    if (!o.num("cov")) { fail = "parts of the baseline " + o.str("path") + " were never read"; continue; }
    if (!o.num("eof") && (long)o.str("dl").size() < o.num("max")) { fail = "only " + S(o.str("dl").size()) + " of " + S(o.num("max")) + " bytes of the baseline " + o.str("path") + " were obtained"; continue; }
    Doc d = model::parse_doc(o.str("dl"));
    if (!d.ok) { fail = "the baseline that was read is not well formed (" + d.err + ")"; continue; }
    if (d.odd && d.root != "output") { ok = true; break; } // what unknown elements mean is not specified, but the others keep their places
    std::string bad;
    for (auto& x : expect(s, d.es)) if (x.t == model::No) { bad = "measurement does not match: " + why(x); break; }
    if (bad.empty()) { ok = true; break; }
    fail = bad;
  }
  if (!ok) j.bad("false-success", "run returned 0: " + fail);
}
static RegProp rC01({"C01", c01_gen, c01_place, nullptr, false, c01_judge, false});

// ------------------------------------------------------------------ C02
static J c02_gen(uint64_t seed) {
  Gen g(seed);
  J pl = gen::plan("C02", seed, g);
  J a = proc(g), b = proc(g);
  a["ops"] = g.ops(0, 8);
  tol_of(g, a); if (a.has("tolv")) b["tolv"] = a.str("tolv");
  int nf = g.r.chance(1, 3) ? (int)g.r.range(1, 2) : 0;
  for (int i = 0; i < nf; ++i) {
    J o = J::obj(); o["op"] = "m"; std::string k = "ftext"; // the comparison of image files is documented as not supported

    std::string fn = (g.r.chance(1, 3) ? "f&<" : "file") + S(i) + ".txt", data = g.r.chance(1, 3) ? g.lines(5) : g.str(3000);
    pl["fs"].push(file("/w/data/" + fn, data)); pl["fs"].push(file("/base/" + fn, data));
    o["kind"] = k; o["name"] = g.name(); o["text"] = (g.r.chance(1, 2) ? "/w/data/" : "data/") + fn;
    auto& v = a["ops"].a; v.insert(v.begin() + g.r.below(v.size() + 1), o);
  }
  pl["fs"].push(dir("/base"));
  // numbers that are not finite are part of the workload
  b["ops"] = a.at("ops");
  bool so = g.r.chance(1, 8);
  (void)so;
  a["outpath"] = "/w/rec.xml"; b["outpath"] = "/w/cmp.xml";
  if (g.r.chance(1, 2)) { a["args"].push("-O"); a["args"].push("rec.xml"); } else a["api_out"] = "/w/rec.xml";
  if (g.r.chance(1, 4)) b["outpath"] = ""; else { b["args"].push("-O"); b["args"].push("/w/cmp.xml"); }
  if (nf || g.r.chance(1, 3)) { b["args"].push("-P"); b["args"].push("/base"); }
  b["args"].push("-I"); b["args"].push(g.r.chance(1, 2) ? "rec.xml" : "/w/rec.xml");
  int R = g.r.chance(1, 4) ? (int)g.r.range(-3, 300) : 0;
  a["bodyret"] = b["bodyret"] = R;
  if (R) for (J* p : {&a, &b}) { if (g.r.chance(1, 2)) (*p)["api_ret"] = R; else { J x = J::arr(); x.push("-R"); x.push(S(R)); for (auto& y : p->at("args").a) x.push(y); (*p)["args"] = x; } }
  if (g.r.chance(1, 6)) pl["fs"].push(file("/w/rec.xml", std::string((size_t)g.r.range(1, 5000), 'z')));
  pl["procs"].push(a); pl["procs"].push(b);
  if (g.r.chance(1, 3)) { J ph = phase1({0}); ph["groups"].push(phase1({1}).at("groups").a[0]); add_phase(pl, ph); }
  else { add_phase(pl, phase1({0})); add_phase(pl, phase1({1})); }
  return pl;
}
static void c02_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0x202);
  for (int p = 0; p < 2; ++p) if (g.r.chance(1, 2)) place(g, pl, dry, p, {"read:short", "read:eintr", "write:short", "write:eintr"}, (int)g.r.range(1, 4));
  if (g.r.chance(1, 4)) { J f = J::obj(); f["proc"] = 0; f["cls"] = "time"; f["nth"] = 0; f["act"] = "jump"; f["arg"] = (long)g.r.range(-2000000000L, 200000000000L); pl["faults"].push(f); }
}
static void c02_judge(Judge& j) {
  const J &a = j.proc(0), &b = j.proc(1);
  j.nontrivial = j.spec(0).at("ops").size() > 0;
  if (!a.num("returned") || a.num("ret") != 0) { j.bad("record-failed", "recording without I/O errors returned " + S(a.num("ret", -999)) + ": " + a.str("err").substr(0, 200)); return; }
  std::string rec; j.file("/w/rec.xml", rec, (int)a.num("phase"));
  if (!b.num("returned") || b.num("ret") != 0) {
    Doc d = model::parse_doc(rec);
    j.bad("compare-failed", "comparing with its own recording returned " + S(b.num("ret", -999)) + (d.ok ? "" : " (recording is not well formed: " + d.err + ")") + " " + model::printable(b.str("err"), 200) + " report: " + model::printable(output_of(j, 1), 300));
    return;
  }
  for (auto* q : {&a, &b}) for (auto& m : q->at("mret").a) if (m.i != 0) { j.bad("measurement-result", std::string(q == &a ? "recording" : "comparing") + " a measurement which does not differ returned " + S(m.i)); return; }
  std::string out = output_of(j, 1);
  Doc f = model::parse_fragment(out);
  if (!f.ok || !f.es.empty()) j.bad("difference-reported", "comparison succeeded but reported: " + model::printable(out, 300));
}
static RegProp rC02({"C02", c02_gen, c02_place, nullptr, false, c02_judge, true});

// ------------------------------------------------------------------ C03
static J c03_gen(uint64_t seed) {
  Gen g(seed);
  J pl = compare_plan("C03", seed, g, true);
  if (g.r.chance(1, 40)) { many_mismatches(g, pl); return pl; }
  J& p = pl["procs"].a[0];
  if (g.r.chance(1, 5)) { J o = J::obj(); o["op"] = "tol"; static const char* T[] = {"0", "1e-3", "0.25", "-1e-6", "1e-12"}; o["v"] = T[g.r.below(5)]; auto& a = p["ops"].a; a.insert(a.begin() + g.r.below(a.size() + 1), o); }
  if (g.r.chance(1, 10)) { // one document, many measurements
    for (int i = 0; i < 40; ++i) p["ops"].push(g.meas());
    Rng r(g.r.next()); std::vector<Entry> es = entries_of(p.at("ops")); perturb(g, es, p.at("ops"), tolv(p), 6); set_base_data(pl, write_doc(es, &r));
  }
  return pl;
}
static void c03_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0x303);
  if (g.r.chance(1, 2)) place(g, pl, dry, 0, {"read:short", "read:eintr"}, (int)g.r.range(1, 3));
}
static void c03_judge(Judge& j) {
  const J& r = j.proc(0); const J& s = j.spec(0);
  Doc d = model::parse_doc(base_data(j.plan));
  if (!d.ok || d.odd) return;
  j.nontrivial = s.at("ops").size() > 0;
  if (!r.num("returned") || !r.num("completed")) { j.bad("not-completed", "comparison did not complete: " + model::printable(r.str("err"), 200)); return; }
  if (s.num("bodyret") != expected_ret(s)) { if (r.num("ret") != s.num("bodyret")) j.bad("unexpected-return", "test body returned " + S(s.num("bodyret")) + " but the run returned " + S(r.num("ret"))); return; }
  long lo = 0, hi = 0; std::string w;
  size_t nth = 0;
  for (auto& x : expect(s, d.es)) { // the call itself returns 0 for a match
    const J& mr = r.at("mret"); if (nth >= mr.size()) break;
    long m = mr.a[nth++].i;
    if ((x.t == model::Yes && m != 0) || (x.t == model::No && m == 0)) { j.bad("measurement-result", "the call for measurement " + S((long)nth) + " returned " + S(m) + ": " + (x.t == model::Yes ? "match: " : "mismatch: ") + why(x)); break; }
  }
  for (auto& x : expect(s, d.es)) { if (x.t == model::No) { ++lo; ++hi; w += "\n   mismatch: " + why(x); } else if (x.t == model::Maybe) { ++hi; w += "\n   borderline: " + why(x); } else w += "\n   match: " + why(x); }
  if (lo) j.probes["c03.mismatch"]++; else j.probes["c03.match"]++;
  if (hi > lo) j.probes["c03.borderline"]++;
  if (r.num("ret") < lo || r.num("ret") > hi) j.bad(r.num("ret") < lo ? "count-too-low" : "count-too-high", "run returned " + S(r.num("ret")) + " but " + S(lo) + (hi > lo ? ".." + S(hi) : std::string()) + " measurements do not match (tolerance " + S(0).substr(1) + (s.str("tolv").empty() ? "default" : s.str("tolv")) + ")" + w.substr(0, 1200));
}
static RegProp rC03({"C03", c03_gen, c03_place, nullptr, false, c03_judge, true});

// ------------------------------------------------------------------ C04
static const char* THROWS[] = {"runtime_error", "logic_error", "length_error", "domain_error", "out_of_range", "invalid_argument", "range_error", "overflow_error", "underflow_error", "bad_alloc", "bad_cast", "ios_failure", "custom", "int", "zero", "cstr", "string"};
static J c04_gen(uint64_t seed) {
  Gen g(seed);
  J pl;
  bool rec = g.r.chance(2, 5);
  if (rec) {
    pl = gen::plan("C04", seed, g);
    J p = proc(g); p["ops"] = g.ops(0, 5); set_ret(g, p); out_to(g, p, "/w/out.xml"); extra_args(g, p);
    pl["procs"].push(p);
  } else {
    pl = compare_plan("C04", seed, g, false);
    if (g.r.chance(1, 2)) set_base_data(pl, g.corrupt(base_data(pl)));
    pl["phases"] = J::arr();
  }
  J& p = pl["procs"].a[0];
  bool again = !rec && g.r.chance(1, 6);
  if (again) { // a run that fails, then another one of the same object
    if (!model::parse_doc(base_data(pl)).ok) { Rng r(g.r.next()); std::vector<Entry> es = entries_of(p.at("ops")); perturb(g, es, p.at("ops"), tolv(p), (int)g.r.below(3)); set_base_data(pl, write_doc(es, &r)); }
    int runs = (int)g.r.range(2, 3); p["runs"] = runs; pl["x_again"] = 1;
    if (g.r.chance(3, 4)) { J o = J::obj(); o["op"] = "throw"; o["only"] = (long)g.r.below(runs - 1); o["what"] = THROWS[g.r.below(17)]; auto& a = p["ops"].a; a.insert(a.begin() + g.r.below(a.size() + 1), o); }
  }
  else if (g.r.chance(1, 6)) { // text differences: long edit scripts
    J o = J::obj(); o["op"] = "m"; o["kind"] = "plain"; o["name"] = "t"; o["text"] = g.lines(12); p["ops"].push(o);
    if (!rec) { Entry e = entry_of(meas_of(o)); e.content = g.lines(12); std::vector<Entry> es; J one = J::arr(); one.push(o); p["ops"] = one; es.push_back(e); set_base_data(pl, write_doc(es, nullptr)); }
  }
  if (!again && g.r.chance(1, 2)) { J o = J::obj(); o["op"] = "throw"; o["what"] = THROWS[g.r.below(17)]; auto& a = p["ops"].a; a.insert(a.begin() + g.r.below(a.size() + 1), o); }
  if (!again && g.r.chance(1, 6)) { // files
    J o = J::obj(); o["op"] = "m"; static const char* K[] = {"ftext", "fpng", "fjpeg"}; o["kind"] = K[g.r.below(3)]; o["name"] = "f"; o["text"] = g.r.chance(1, 4) ? "missing.txt" : "/w/data/f.txt"; std::string data = g.r.chance(1, 6) ? std::string() : g.str(400); pl["fs"].push(file("/w/data/f.txt", data)); if (g.r.chance(2, 3)) pl["fs"].push(file("/w/f.txt", g.r.chance(1, 2) ? data : data + "x"));
    auto& a = p["ops"].a; a.insert(a.begin() + g.r.below(a.size() + 1), o);
    if (!rec) { std::vector<Entry> es = entries_of(p.at("ops")); Rng r(g.r.next()); set_base_data(pl, write_doc(es, &r)); }
  }
  if (!again && g.r.chance(1, 5)) { // odd option lists
    static const char* A[] = {"-O", "-I", "-R", "-P", "", "-", "x", "-O", "-I", "-R", "-P", "/nope", "/w", "7"};
    int n = (int)g.r.range(1, 4);
    for (int i = 0; i < n; ++i) { auto& a = p["args"].a; if (g.r.chance(2, 3)) a.push_back(A[g.r.below(14)]); else a.insert(a.begin() + g.r.below(a.size() + 1), J(A[g.r.below(14)])); }
    p["x_weird"] = 1; pl["x_weird"] = 1;
  }
  if (!again && g.r.chance(1, 10)) p["runs"] = 2;
  // a following, ordinary test in the same process
  J f = proc(g); f["ops"] = g.ops(1, 3); f["args"] = J::arr(); f["cwd"] = "/f";
  std::vector<Entry> es = entries_of(f.at("ops")); perturb(g, es, f.at("ops"), DEFTOL, (int)g.r.below(2));
  pl["fs"].push(dir("/f")); pl["fs"].push(file("/f/base.xml", write_doc(es, nullptr)));
  f["args"].push("-I"); f["args"].push("/f/base.xml"); f["args"].push("-O"); f["args"].push("/f/out.xml"); f["outpath"] = "/f/out.xml";
  pl["procs"].push(f);
  J ph = phase1({0}); ph["groups"].push(phase1({1}).at("groups").a[0]);
  add_phase(pl, ph);
  return pl;
}
static void c04_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0x404);
  if (g.r.chance(1, 8)) return;
  if (g.r.chance(1, 2)) place(g, pl, dry, 0, {"alloc"}, (int)g.r.range(1, 3));
  if (g.r.chance(1, 2)) place(g, pl, dry, 0, {"read", "write", "open", "stat", "access", "close", "lseek", "fstat", "gethostname", "ctime", "time", "stdout", "read:short", "write:short"}, (int)g.r.range(1, 3));
}
namespace prop {
void check_followup(Judge& j, int i) {
  const J& r = j.proc(i); const J& s = j.spec(i);
  if (r.is_null()) return;
  std::string bd; if (!j.file("/f/base.xml", bd)) return;
  Doc d = model::parse_doc(bd);
  long lo = 0, hi = 0; for (auto& x : expect(s, d.es)) { if (x.t == model::No) ++lo, ++hi; else if (x.t == model::Maybe) ++hi; }
  if (!r.num("returned") || !r.num("completed")) j.bad("followup", "the following test did not run normally: " + model::printable(r.str("err"), 200));
  else if (r.num("ret") < lo || r.num("ret") > hi) j.bad("followup", "the following test returned " + S(r.num("ret")) + " instead of " + S(lo));
}
}
static void c04_judge(Judge& j) {
  const J& r = j.proc(0);
  j.nontrivial = true;
  if (r.has("escaped")) { j.bad("escaped", "an exception left the run: " + r.str("escaped")); return; }
  if (!r.num("returned")) { j.bad("no-return", "the run did not return"); return; }
  for (size_t k = 0; k < r.at("rets").size(); ++k) if (r.at("rets").a[k].i == 0 && !r.at("comps").a[k].i) { j.bad("aborted-success", "run returned 0 although the test body did not complete (expected return value " + S(expected_ret(j.spec(0))) + ")"); break; }
  if (!r.num("completed")) {
    j.probes["c04.aborted"]++;
  } else j.probes["c04.completed"]++;
  if (j.plan.num("x_again")) { // a run no failing call hit is not affected by the runs before
    const J& s = j.spec(0); Doc d = model::parse_doc(base_data(j.plan));
    const J& rets = r.at("rets"); const J& hits = r.at("hits");
    if (d.ok && !d.odd && !r.num("stdout_bad") && rets.size() == (size_t)s.num("runs") && hits.a.back().i == 0 && s.num("bodyret") == expected_ret(s)) {
      long lo = 0, hi = 0; for (auto& x : expect(s, d.es)) { if (x.t == model::No) ++lo, ++hi; else if (x.t == model::Maybe) ++hi; }
      j.probes["c04.again"]++;
      if (!r.num("completed")) { j.bad("again", "another run of the same test did not complete: " + model::printable(r.str("err"), 200)); return; }
      if (r.num("ret") < lo || r.num("ret") > hi) { j.bad("again", "another run of the same test, after one that failed, returned " + S(r.num("ret")) + " instead of " + S(lo)); return; }
    }
  }
  if (r.num("open_after") != 0) j.bad("open-files", S(r.num("open_after")) + " files still open after the test object was destroyed");
  check_followup(j, 1);
}
static RegProp rC04({"C04", c04_gen, c04_place, nullptr, false, c04_judge, true});

// ------------------------------------------------------------------ C05
static J record_plan(const char* id, uint64_t seed, Gen& g, int lo, int hi, bool so = true) {
  J pl = gen::plan(id, seed, g);
  J p = proc(g);
  p["ops"] = g.ops(lo, hi);
  out_to(g, p, "/w/out.xml", so && g.r.chance(1, 2));
  if (g.r.chance(1, 4)) { int R = (int)g.r.range(-2, 5); p["bodyret"] = R; p["api_ret"] = R; }
  if (g.r.chance(1, 4)) { J o = J::obj(); o["op"] = "m"; o["kind"] = g.r.chance(2, 3) ? "ftext" : "fpng"; o["name"] = g.name(); o["text"] = "/w/d/some<file>.txt"; auto& a = p["ops"].a; a.insert(a.begin() + g.r.below(a.size() + 1), o); }
  if (g.r.chance(1, 4)) pl["fs"].push(file("/w/out.xml", std::string((size_t)g.r.range(1, 20000), 'z')));
  pl["procs"].push(p);
  add_phase(pl, phase1({0}));
  return pl;
}
static J c05_gen(uint64_t seed) {
  Gen g(seed);
  J pl = record_plan("C05", seed, g, 0, 10);
  J& p = pl["procs"].a[0];
  if (g.r.chance(1, 5)) { J o = J::obj(); o["op"] = "m"; o["kind"] = "plain"; o["name"] = "big"; o["text"] = std::string((size_t)g.r.range(8000, 30000), g.r.chance(1, 2) ? 'b' : '<'); p["ops"].push(o); }
  return pl;
}
static void c05_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0x505);
  if (g.r.chance(1, 10)) return;
  place(g, pl, dry, 0, {"write", "write", "write:short", "write:eintr", "write:lost", "close", "close", "stdout", "alloc"}, (int)g.r.range(1, 3));
}
static bool value_close(const Meas& m, const Entry& e) {
  if (e.content == m.text) return true;
  if (m.kind != "float" && m.kind != "double") return false;
  long double u, v;
  if (model::num_value(m.kind, e.content, u) == 0 || model::num_value(m.kind, m.text, v) == 0) return false;
  u = strtold(e.content.c_str(), 0); v = strtold(m.text.c_str(), 0);
  if (std::isnan((double)u) || std::isinf((double)u)) return false;
  long double d = fabsl(u - v), a = std::max(fabsl(u), fabsl(v));
  return d <= a * (m.kind == "float" ? 1e-6L : 1e-15L);
}
static std::string entry_problem(const Meas& m, const Entry& e) {
  if (e.elem != m.elem()) return "element is " + e.elem;
  if (!e.has_name || e.name != m.name) return "name is " + model::printable(e.name);
  if (!e.has_type || e.type != m.type()) return "type is " + e.type;
  if (e.enc != "none" || e.comp != "none") { if (e.enc != "base64") return "unknown encoding"; std::string d; if (!model::b64_decode(e.content, d)) return "bad base64"; Entry f = e; f.content = d; return value_close(m, f) ? "" : "content is " + model::printable(d); }
  Meas x = m; if (m.is_file()) { size_t p = x.text.rfind('/'); if (p != std::string::npos) x.text = x.text.substr(p + 1); }
  if (!value_close(x, e)) return "content is " + model::printable(e.content);
  return "";
}
static std::vector<Meas> meas_list(const J& spec, int upto = INT_MAX) { std::vector<Meas> v; int i = 0; for (auto& o : spec.at("ops").a) { if (i++ >= upto) break; if (o.str("op", "m") == "m") v.push_back(meas_of(o)); } return v; }
static void c05_judge(Judge& j) {
  const J& r = j.proc(0); const J& s = j.spec(0);
  j.nontrivial = true;
  if (!r.num("returned")) return;
  if (r.num("ret") != 0) { j.probes["c05.nonzero"]++; if (!harmed(j)) j.bad("record-failed", "recording without faults returned " + S(r.num("ret")) + " " + model::printable(r.str("err"), 200)); return; }
  j.probes["c05.success"]++;
  bool present; std::string out = output_of(j, 0, &present);
  std::string where = s.str("outpath").empty() ? "standard output" : s.str("outpath");
  if (!present) { j.bad("missing", "run returned 0 but there is no file " + where); return; }
  Doc d = model::parse_doc(out);
  if (!d.ok || d.root != "output") { j.bad("incomplete", "run returned 0 but " + where + " is not a complete document (" + d.err + ", " + S(out.size()) + " bytes)"); return; }
  auto ms = meas_list(s);
  if (d.es.size() != ms.size()) { j.bad("count", "run returned 0, " + S(ms.size()) + " measurements were made but the document has " + S(d.es.size())); return; }
  for (size_t i = 0; i < ms.size(); ++i) { std::string e = entry_problem(ms[i], d.es[i]); if (!e.empty()) { j.bad("content", "measurement " + S(i) + " (" + ms[i].kind + " " + model::printable(ms[i].name) + " = " + model::printable(ms[i].text) + ") was recorded wrongly: " + e); return; } }
}
static RegProp rC05({"C05", c05_gen, c05_place, nullptr, false, c05_judge, false});

// ------------------------------------------------------------------ C06
static J c06_gen(uint64_t seed) {
  Gen g(seed);
  J pl = record_plan("C06", seed, g, 1, 8);
  J& p = pl["procs"].a[0];
  if (g.r.chance(1, 6)) { J o = J::obj(); o["op"] = "m"; o["kind"] = "string"; o["name"] = "big"; o["text"] = std::string((size_t)g.r.range(8000, 20000), 'b'); auto& a = p["ops"].a; a.insert(a.begin() + g.r.below(a.size() + 1), o); }
  if (p.str("outpath").empty()) return pl;
  J c = proc(g); c["ops"] = p.at("ops"); c["bodyret"] = p.num("bodyret"); if (p.has("api_ret")) c["api_ret"] = p.num("api_ret");
  c["args"].push("-I"); c["args"].push("/w/out.xml");
  pl["procs"].push(c);
  add_phase(pl, phase1({1}));
  return pl;
}
static J c06_ref(const J& pl) { J p = pl; p["phases"].a.resize(1); J& q = p["procs"].a[0]; q["split"] = 0; return p; }
static void c06_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0x606);
  if (g.r.chance(1, 20)) return;
  const J& c = dry.at("procs").a[0].at("cnt");
  J f = J::obj(); f["proc"] = 0; f["act"] = "crash";
  int k = (int)g.r.below(4);
  std::string cls = k == 0 && c.num("write") ? "write" : k == 1 ? "op" : k == 2 && c.num("close") ? "close" : "io";
  f["cls"] = cls; f["nth"] = (long)g.r.below(std::max<long long>(1, c.num(cls)));
  if (cls == "write") f["arg"] = (long)g.r.below(g.r.chance(1, 2) ? 20 : 9000);
  pl["faults"].push(f);
}
static void c06_judge(Judge& j) {
  const J& r = j.proc(0); const J& s = j.spec(0);
  bool crashed = r.num("crashed");
  if (crashed) { j.nontrivial = true; j.probes["c06.crashed"]++; }
  std::string o = s.str("outpath"), got, ref;
  bool have;
  if (o.empty()) { got = r.str("out"); have = true; ref = j.ref.at("procs").a[0].str("out"); }
  else {
    have = j.file(o, got, 0);
    Judge k(j.plan, j.ref, j.ref); k.file(o, ref, 0);
  }
  int done = (int)r.num("done", 0);
  if (!r.has("done")) done = 0;
  std::string old; for (auto& f : j.plan.at("fs").a) if (f.str("path") == o && !o.empty()) old = f.str("data");
  if (!r.num("called") && have && !old.empty() && got == old) return; // not opened yet
  if (!have) got = "";
  if (ref.compare(0, got.size(), got) != 0) {
    size_t k = 0; while (k < got.size() && k < ref.size() && got[k] == ref[k]) ++k;
    j.bad("not-a-prefix", "after the crash the output is not a prefix of the undisturbed recording, first difference at byte " + S(k) + ": " + model::printable(got.substr(k), 80)); return;
  }
  auto ms = meas_list(s, done);
  // close the torn tail to read the complete entries
  size_t e = got.size(); Doc d; bool ok = false;
  for (;;) {
    Doc t = model::parse_doc(got.substr(0, e) + (got.substr(0, e).find("</output>") == std::string::npos ? "</output>" : ""));
    if (t.ok) { d = t; ok = true; break; }
    size_t k = e ? got.rfind('<', e - 1) : std::string::npos;
    if (k == std::string::npos) break;
    e = k;
  }
  if (!ok && !ms.empty()) { j.bad("lost", S(ms.size()) + " measurements had been recorded but the output cannot be read"); return; }
  if (d.es.size() < ms.size()) { j.bad("lost", S(ms.size()) + " measurements had been recorded when the process died, only " + S(d.es.size()) + " are in the output"); return; }
  for (size_t i = 0; i < ms.size(); ++i) { std::string p = entry_problem(ms[i], d.es[i]); if (!p.empty()) { j.bad("content", "recorded measurement " + S(i) + " is not complete: " + p); return; } }
  if (j.plan.at("procs").size() > 1 && j.rec.at("procs").a[1].num("returned")) {
    const J& c = j.proc(1);
    Doc full = model::parse_doc(got);
    if (!full.ok && c.num("ret") == 0) j.bad("torn-accepted", "a torn recording of " + S(got.size()) + " of " + S(ref.size()) + " bytes was accepted as baseline");
  }
}
static RegProp rC06({"C06", c06_gen, c06_place, c06_ref, true, c06_judge, false});

// ------------------------------------------------------------------ C07
static unsigned long dhash(const std::string& s) { unsigned long h = 0; for (char c : s) h = (unsigned long)(long)c + (h << 7 | h >> 57); return h; }
static std::string collide(Gen& g, const std::string& base) { // another line with the same rotating hash
  std::string t = base; size_t p = g.r.below(t.size() - 64);
  std::swap(t[p], t[p + 64]);
  return dhash(t) == dhash(base) ? t : base;
}
static J c07_gen(uint64_t seed) {
  Gen g(seed);
  J pl = compare_plan("C07", seed, g, true);
  J& p = pl["procs"].a[0];
  std::vector<Entry> es = entries_of(p.at("ops"));
  int np = (int)g.r.range(1, 5);
  perturb(g, es, p.at("ops"), tolv(p), np);
  if (g.r.chance(1, 2)) { // text with a rich edit history
    J o = J::obj(); o["op"] = "m"; o["kind"] = "plain"; o["name"] = "text";
    std::string a = g.lines(14), b = g.r.chance(1, 2) ? g.lines(14) : a;
    if (b == a) { // random line edits
      std::vector<std::string> l; size_t i = 0; for (;;) { size_t k = a.find('\n', i); if (k == std::string::npos) { l.push_back(a.substr(i)); break; } l.push_back(a.substr(i, k - i)); i = k + 1; }
      int n = (int)g.r.range(1, 6);
      for (int k = 0; k < n; ++k) { size_t at = g.r.below(l.size() + 1); int c = (int)g.r.below(4); if (c == 0) l.insert(l.begin() + at, "ins" + S(k)); else if (at < l.size()) { if (c == 1) l.erase(l.begin() + at); else if (c == 2) l[at] += "'"; else std::swap(l[at], l[g.r.below(l.size())]); } }
      b.clear(); for (size_t k = 0; k < l.size(); ++k) { if (k) b += '\n'; b += l[k]; }
    }
    else if (g.r.chance(1, 25)) { // long texts, many edits
      int n = (int)g.r.range(60, 350), period = (int)g.r.range(3, 400), ed = (int)g.r.range(1, 150);
      std::vector<std::string> l; for (int k = 0; k < n; ++k) l.push_back("line " + S(k % period));
      a.clear(); for (auto& x : l) a += x + "\n";
      for (int k = 0; k < ed; ++k) { size_t at = g.r.below(l.size() + 1); int c = (int)g.r.below(3); if (c == 0 || at == l.size()) l.insert(l.begin() + at, g.r.chance(1, 2) ? "line " + S((long)g.r.below(period)) : "new " + S(k)); else if (c == 1) l.erase(l.begin() + at); else l[at] += "'"; }
      b.clear(); for (auto& x : l) b += x + "\n";
    }
    if (g.r.chance(1, 5)) { // lines of equal hash
      std::string base; for (int k = 0; k < 80; ++k) base += (char)('a' + g.r.below(3));
      std::string o2 = collide(g, base);
      auto sprinkle = [&](std::string t) { int n = (int)g.r.range(1, 3); for (int k = 0; k < n; ++k) { size_t nl = t.find('\n', g.r.below(t.size() + 1)); std::string ln = (g.r.chance(1, 2) ? base : o2) + "\n"; if (nl == std::string::npos) t += "\n" + ln; else t.insert(nl + 1, ln); } return t; };
      a = sprinkle(a); b = sprinkle(b);
    }
    o["text"] = b;
    Entry e = entry_of(meas_of(o)); e.content = a;
    size_t at = g.r.below(std::min<size_t>(p["ops"].size(), es.size()) + 1);
    p["ops"].a.insert(p["ops"].a.begin() + at, o); es.insert(es.begin() + at, e);
  }
  for (auto& e : es) if (e.type == "text/plain" && e.enc != "none") { e.enc = "none"; }
  for (auto& e : es) e.comp = "none";
  Rng r(g.r.next());
  set_base_data(pl, g.r.chance(1, 2) ? write_doc(es, nullptr) : write_doc(es, &r));
  return pl;
}
static void c07_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0x707);
  if (g.r.chance(1, 3)) place(g, pl, dry, 0, {"write:short", "write:eintr", "read:short", "read:eintr"}, (int)g.r.range(1, 3));
  if (g.r.chance(1, 3)) {
    const J& c = dry.at("procs").a[0].at("cnt");
    J f = J::obj(); f["proc"] = 0; f["act"] = "crash";
    std::string cls = g.r.chance(1, 2) ? "op" : g.r.chance(1, 2) && c.num("write") ? "write" : "io";
    f["cls"] = cls; f["nth"] = (long)g.r.below(std::max<long long>(1, c.num(cls))); if (cls == "write") f["arg"] = (long)g.r.below(200);
    pl["faults"].push(f);
  } else if (g.r.chance(1, 4)) place(g, pl, dry, 0, {"alloc"}, 1);
}
// can the fragments es[k..] be the reports of the expectations x[i..]?
struct Rep {
  const std::vector<Exp>& x; const std::vector<Entry>& f; std::string best; size_t far = 0; std::map<std::pair<size_t, size_t>, bool> memo;
  bool plainval(const Entry& e, const std::string& elem, const std::string& name, const std::string& type, const Meas& m) {
    Meas q = m; q.name = name; Entry z = e;
    if (z.elem != elem || z.name != name || z.type != type) return false;
    if (z.enc == "base64") { std::string d; if (!model::b64_decode(z.content, d)) return false; z.content = d; }
    return z.content == m.text || value_close(m, z);
  }
  void note(size_t k, const std::string& s) { if (k >= far) { far = k; best = s; } }
  bool go(size_t i, size_t k) {
    if (i == x.size()) { if (k == f.size()) return true; note(k, "unexpected report \"" + model::printable(f[k].name) + "\""); return false; }
    auto key = std::make_pair(i, k); auto it = memo.find(key); if (it != memo.end()) return it->second;
    bool r = step(i, k); memo[key] = r; return r;
  }
  bool step(size_t i, size_t k) {
    const Exp& e = x[i];
    if (e.t != model::No && go(i + 1, k)) return true;
    if (e.t == model::Yes) return false;
    if (e.unmatched) {
      if (k >= f.size()) { note(k, "no report for unmatched measurement " + why(e)); return false; }
      if (!plainval(f[k], e.m.elem(), "Unmatched " + e.m.name, e.m.type(), e.m)) { note(k, "wrong report for unmatched measurement " + why(e) + ": got " + f[k].type + " " + model::printable(f[k].name) + " = " + model::printable(f[k].content)); return false; }
      return go(i + 1, k + 1);
    }
    if (e.m.kind == "plain") {
      if (k >= f.size()) { note(k, "no report for differing text " + why(e)); return false; }
      if (f[k].elem != "DartMeasurement" || f[k].name != "Difference " + e.m.name || f[k].type != "text/plain") { note(k, "wrong report for differing text " + why(e) + ": got " + model::printable(f[k].name)); return false; }
      std::string to, err; if (!model::apply_diff(e.e.content, f[k].content, to, err)) { note(k, "the difference script of " + why(e) + " cannot be applied: " + err + " script " + model::printable(f[k].content, 300)); return false; }
      if (to != e.m.text) { note(k, "applying the difference script to " + model::printable(e.e.content, 300) + " gives " + model::printable(to, 300) + " instead of " + model::printable(e.m.text, 300)); return false; }
      return go(i + 1, k + 1);
    }
    if (k + 1 >= f.size()) { note(k, "no report pair for " + why(e)); return false; }
    if (!plainval(f[k], e.m.elem(), "Test " + e.m.name, e.m.type(), e.m)) { note(k, "wrong test report for " + why(e) + ": got " + f[k].type + " " + model::printable(f[k].name) + " = " + model::printable(f[k].content)); return false; }
    Entry b = f[k + 1];
    bool same = b.elem == e.e.elem && b.name == "Baseline " + e.e.name && b.type == e.e.type && b.content == e.e.content && b.enc == e.e.enc;
    if (!same) { note(k, "wrong baseline report for " + why(e) + ": got " + b.type + " " + model::printable(b.name) + " = " + model::printable(b.content)); return false; }
    return go(i + 1, k + 2);
  }
};
static void c07_judge(Judge& j) {
  const J& r = j.proc(0); const J& s = j.spec(0);
  Doc d = model::parse_doc(base_data(j.plan));
  if (!d.ok || d.odd) return;
  bool clean = !harmed(j), crashed = r.num("crashed");
  if (!r.num("called")) { if (clean) j.bad("not-run", "the comparison did not start: " + model::printable(r.str("err"), 200)); return; }
  std::string out = output_of(j, 0);
  j.nontrivial = true;
  int done = (int)r.num("done");
  std::string err;
  auto check = [&](const std::string& bytes, int upto, const std::string& when, const char* key) {
    Doc f = model::parse_fragment(bytes);
    if (!f.ok) { j.bad("malformed", when + " the report is not well formed (" + f.err + "): " + model::printable(bytes, 300)); return false; }
    auto x = expect(s, d.es, upto);
    Rep q{x, f.es, "", 0, {}};
    if (!q.go(0, 0)) { j.bad(key, when + " " + q.best); return false; }
    return true;
  };
  auto& marks = r.at("marks").a;
  for (int i = 0; i < done && i < (int)marks.size(); ++i) {
    long m = marks[i].i; if (m < 0) m = 0;
    if (m > (long)out.size()) { j.bad("shrunk", "the output lost reports that had been written"); return; }
    if (i && marks[i - 1].i == m && i + 1 != done) { // nothing new: still must be right
      if (!check(out.substr(0, m), i + 1, "after measurement " + S(i), "late")) return;
      continue;
    }
    if (!check(out.substr(0, m), i + 1, "after measurement " + S(i), "wrong-report")) return;
  }
  if (clean && !crashed && r.num("completed")) check(out, INT_MAX, "at the end", "wrong-report");
  if (clean && !r.num("completed")) j.bad("not-completed", "the comparison did not complete: " + model::printable(r.str("err"), 200));
}
static RegProp rC07({"C07", c07_gen, c07_place, nullptr, false, c07_judge, true});

// ------------------------------------------------------------------ C08
static std::string blob(Gen& g) {
  static const long SZ[] = {0, 1, 2, 100, 1023, 1024, 1025, 8190, 8191, 8192, 8193, 16383, 16384, 20000};
  long n = SZ[g.r.below(14)];
  if (g.r.chance(1, 3)) n = (long)g.r.below(300);
  if (g.r.chance(1, 60)) { static const long B[] = {65535, 65536, 65537, 131072, 200000}; n = B[g.r.below(5)]; }
  std::string s; int k = (int)g.r.below(3);
  for (long i = 0; i < n; ++i) s += k == 0 ? (char)g.r.below(256) : k == 1 ? "ab\n\r"[g.r.below(4)] : (char)('a' + i % 26);
  return s;
}
static J c08_gen(uint64_t seed) {
  Gen g(seed);
  J pl = gen::plan("C08", seed, g);
  J p = proc(g);
  int n = (int)g.r.range(1, 3);
  std::vector<Entry> es;
  bool search = g.r.chance(2, 3);
  pl["fs"].push(dir("/s1")); pl["fs"].push(dir("/s2")); pl["fs"].push(dir("/w/data"));
  int mode = (int)g.r.below(8); // 0: image kind (only safety)
  J truth = J::arr();
  bool alleq = g.r.chance(1, 2);
  for (int i = 0; i < n; ++i) {
    std::string fn = "f" + S(i) + ".txt", a = blob(g), b = a;
    int c = alleq ? 9 : (int)g.r.below(8);
    if (c == 0 && !b.empty()) b[g.r.below(b.size())] ^= (char)(1 << g.r.below(8));
    else if (c == 1) b += "x"; else if (c == 2 && !b.empty()) b.pop_back(); else if (c == 3) b = blob(g);
    bool havea = alleq || !g.r.chance(1, 10), haveb = alleq || !g.r.chance(1, 10);
    int ma = !alleq && g.r.chance(1, 16) ? 2 : 6, mb = !alleq && g.r.chance(1, 16) ? 2 : 6;
    std::string tn = g.r.chance(1, 3) ? "t" + S(i) + ".out" : fn, tp = "/w/data/" + tn; // the measured file may have another name
    if (tn != fn && g.r.chance(1, 2)) pl["fs"].push(file(std::string(g.r.chance(1, 2) ? "/s1/" : g.r.chance(1, 2) ? "/s2/" : "/w/") + tn, g.r.chance(1, 2) ? a : g.r.chance(1, 2) ? b : blob(g)));
    if (havea) pl["fs"].push(file(tp, a, ma));
    std::string bp = "/w/" + fn;
    if (search) { // the first directory holding the file is used
      std::string dd = g.r.chance(1, 2) ? "/s1/" : "/s2/";
      bp = dd + fn;
      if (g.r.chance(1, 4)) pl["fs"].push(file("/w/" + fn, blob(g)));
      if (!alleq && haveb && dd == "/s2/" && g.r.chance(1, 4)) pl["fs"].push(file("/s1/" + fn, b + "other"));
      if (!haveb) bp = "/w/none";
    }
    if (haveb && search) pl["fs"].push(file(bp, b, mb)); else if (haveb) pl["fs"].push(file("/w/" + fn, b, mb));
    J o = J::obj(); o["op"] = "m"; o["kind"] = mode == 0 ? (g.r.chance(1, 2) ? "fpng" : "fjpeg") : "ftext"; o["name"] = "f" + S(i); o["text"] = g.r.chance(1, 2) ? tp : "data/" + tn;
    p["ops"].push(o);
    Entry e = entry_of(meas_of(o)); e.content = g.r.chance(1, 4) ? "/elsewhere/" + fn : fn;
    if (!search && e.content[0] == '/') e.content = fn;
    es.push_back(e);
    J t = J::obj(); t["test"] = tp; t["tail"] = fn; t["base"] = sim::norm(e.content, "/w"); truth.push(t);
  }
  pl["x_files"] = truth; pl["x_image"] = mode == 0; pl["x_search"] = search;
  if (g.r.chance(1, 2)) for (auto& m : es) if (m.type == "text/plain" && g.r.chance(1, 3)) m.has_type = false;
  pl["fs"].push(file("/w/base.xml", write_doc(es, nullptr)));
  pl["x_base"] = "/w/base.xml";
  if (search) { for (auto s : {"-P", "/s2", "-P", "/s1"}) p["args"].push(s); } // /s1 is searched first
  p["args"].push("-I"); p["args"].push("base.xml");
  out_to(g, p, "/w/out.xml");
  pl["procs"].push(p); add_phase(pl, phase1({0}));
  return pl;
}
static void c08_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0x808);
  if (g.r.chance(1, 4)) return;
  if (g.r.chance(1, 2)) place(g, pl, dry, 0, {"read", "read:short", "read:eintr", "open", "lseek", "fstat", "alloc", "stat"}, (int)g.r.range(1, 3));
  if (g.r.chance(1, 2)) {
    std::vector<J> acts;
    for (auto& f : pl.at("fs").a) {
      if (f.num("dir") || f.str("path") == "/w/base.xml") continue;
      std::string q = f.str("path"); long n = (long)f.str("data").size();
      acts.push_back(env("truncate", q, (long)g.r.below(n + 1))); acts.push_back(env("append", q, 0, std::string((size_t)g.r.range(1, 9000), 'q')));
      acts.push_back(env("remove", q)); acts.push_back(env("overwrite", q, 0, blob(g))); acts.push_back(env("put", q, 0, blob(g))); acts.push_back(env("poke", q, (long)g.r.below(n + 1))); acts.push_back(env("chmod", q, 0));
    }
    place_env(g, pl, dry, 0, acts, (int)g.r.range(1, 2), {"read", "open", "lseek", "fstat", "op", "close", "stat"});
  }
}
static void c08_judge(Judge& j) {
  const J& r = j.proc(0); const J& s = j.spec(0);
  j.nontrivial = true;
  if (!r.num("returned")) return;
  if (j.plan.num("x_image")) return;
  auto content = [&](const std::string& p, std::string& d, bool& readable) { for (auto& f : j.plan.at("fs").a) if (f.str("path") == p && !f.num("dir")) { d = f.str("data"); readable = f.num("mode", 6) & 4; return true; } return false; };
  auto base_of = [&](const std::string& tail, const std::string& named) -> std::string { std::string d; bool rd; if (j.plan.num("x_search")) for (auto dir : {"/s1/", "/s2/"}) if (content(std::string(dir) + tail, d, rd)) return std::string(dir) + tail; return named; };
  if (!harmed(j)) {
    long want = 0; bool maybe = false; std::string w;
    for (auto& t : j.plan.at("x_files").a) {
      std::string a, b; bool ra = false, rb = false;
      bool ha = content(t.str("test"), a, ra), hb = content(base_of(t.str("tail"), t.str("base")), b, rb);
      for (auto& f : j.plan.at("fs").a) (void)f;
      bool eq = ha && hb && ra && rb && a == b;
      if (!eq) { ++want; w += " " + t.str("tail"); if (!(ha && hb && ra && rb)) maybe = true; }
    }
    if (want) j.probes["c08.differ"]++; else j.probes["c08.equal"]++;
    if (want == 0 && r.num("ret") != 0) j.bad("equal-rejected", "all files are readable and identical but the run returned " + S(r.num("ret")) + " " + model::printable(r.str("err"), 200));
    if (want && r.num("ret") == 0) j.bad("false-match", "run returned 0 but these files do not match:" + w);
    else if (want && !maybe && r.num("ret") != want) j.bad("count", "run returned " + S(r.num("ret")) + " but " + S(want) + " file measurements differ:" + w);
    return;
  }
  if (r.num("ret") != 0) { j.probes["c08.fault.nonzero"]++; return; }
  j.probes["c08.fault.success"]++;
  if (!r.num("completed")) { j.bad("not-completed", "run returned 0 although it did not complete"); return; }
  (void)s;
  for (auto& t : j.plan.at("x_files").a) {
    std::vector<const J*> A, B;
    for (auto& o : j.rec.at("ofds").a) {
      if (!o.num("r") || o.num("proc") != 0) continue;
      bool whole = o.num("cov") && (o.num("eof") || (long)o.str("dl").size() >= o.num("max"));
      if (!whole) continue;
      if (o.str("path") == t.str("test")) A.push_back(&o);
      else { const std::string& q = o.str("path"), &tl = t.str("tail"); if (q.size() > tl.size() && !q.compare(q.size() - tl.size(), tl.size(), tl)) B.push_back(&o); }
    }
    bool ok = false; for (auto a : A) for (auto b : B) if (a->str("dl") == b->str("dl")) ok = true;
    if (!ok) j.bad("match-without-read", "run returned 0 but the files " + t.str("test") + " and its baseline were not both read completely with identical bytes");
  }
}
static RegProp rC08({"C08", c08_gen, c08_place, nullptr, false, c08_judge, true});
