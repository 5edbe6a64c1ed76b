// The "test" kind of simulated process: a RegressionTest whose body is a script.
#include "testkind.h"
#include "TestingFramework/tfRegressionTest.h"
#include "TestingFramework/tfMeasurement.h"
#include <cstring>
#include <ios>
#include <new>
#include <stdexcept>
#include <typeinfo>

namespace sim {
namespace {
struct MyError : std::exception { const char* what() const noexcept override { return "custom"; } };
[[noreturn]] void do_throw(const std::string& w) {
  if (w == "runtime_error") throw std::runtime_error("boom");
  if (w == "logic_error") throw std::logic_error("boom");
  if (w == "length_error") throw std::length_error("boom");
  if (w == "domain_error") throw std::domain_error("boom");
  if (w == "out_of_range") throw std::out_of_range("boom");
  if (w == "invalid_argument") throw std::invalid_argument("boom");
  if (w == "range_error") throw std::range_error("boom");
  if (w == "overflow_error") throw std::overflow_error("boom");
  if (w == "underflow_error") throw std::underflow_error("boom");
  if (w == "bad_alloc") throw std::bad_alloc();
  if (w == "bad_cast") throw std::bad_cast();
  if (w == "ios_failure") throw std::ios_base::failure("boom");
  if (w == "custom") throw MyError();
  if (w == "int") throw 42;
  if (w == "zero") throw 0;
  if (w == "cstr") throw "text";
  throw std::string("text");
}
// The global locale of the program under test: other decimal points and thousands separators.
struct Punct : std::numpunct<char> {
  int k; explicit Punct(int k) : k(k) {}
  char do_decimal_point() const override { return k == 3 ? '.' : ','; }
  char do_thousands_sep() const override { return k == 1 ? '.' : ' '; }
  std::string do_grouping() const override { return k == 1 ? "\3" : k == 3 ? "\1" : ""; }
};
bool changed_locale = false;
void use_locale(int k) { HostScope h; if (!k) return; std::locale::global(std::locale(std::locale::classic(), new Punct(k))); changed_locale = true; }
struct LocaleScope { ~LocaleScope() { if (changed_locale) { HostScope h; std::locale::global(std::locale::classic()); changed_locale = false; } } };

class ScriptTest : public testutil::RegressionTest {
public:
  RunProc* rp = nullptr;
  std::string outpath;
protected:
  int Test(int argc, char* argv[]) override {
    HostScope h;
    J& res = rp->res;
    const J& spec = *rp->spec;
    res["called"] = res.num("called") + 1;
    J av = J::arr();
    for (int i = 0; i < argc; ++i) av.push(std::string(argv[i]));
    res["argv"] = av;
    int i = 0;
    if (!res.has("marks")) res["marks"] = J::arr();
    res["done"] = 0;
    for (auto& op : spec.at("ops").a) {
      if (i == spec.num("locale_at", -1)) use_locale((int)spec.num("locale"));
      event("op", std::to_string(i) + " " + op.str("op", "m") + " " + op.str("kind"));
      if (spec.num("ask")) ask("body");
      if (!op.has("only") || op.num("only") == (long)res.at("rets").size()) run_op(op);
      ++i;
      res["done"] = i;
      std::string d;
      long len = -1;
      if (!outpath.empty()) { if (get_file(outpath, d)) len = (long)d.size(); }
      else len = (long)P().out.size();
      res["marks"].push(len);
    }
    event("op", "end");
    res["completed"] = 1;
    return (int)spec.num("bodyret");
  }
public:
  // what the test says about itself
  void ask(const char* when) {
    J o = J::obj(); bool m; int e; std::string in, out, dirs; double tol;
    { SutScope s; m = this->GetCompareMode(); e = this->GetExpectedReturn(); in = this->GetInFileName(); out = this->GetOutFileName(); tol = this->GetRelativeTolerance();
      const fileutil::PathList& l = this->GetInFileSearchPath(); for (auto& d : l) { dirs += d.GetPathName(); dirs += '\n'; } }
    o["mode"] = m; o["ret"] = e; o["in"] = in; o["out"] = out; o["dirs"] = dirs; char b[40]; snprintf(b, sizeof b, "%.17g", tol); o["tol"] = std::string(b);
    rp->res["said"][when] = o;
  }
protected:
  void run_op(const J& op) {
    std::string o = op.str("op", "m");
    if (o == "throw") do_throw(op.str("what"));
    if (o == "tol") { double t = strtod(op.str("v").c_str(), 0); SutScope s; this->SetRelativeTolerance(t); return; }
    if (o == "env") { apply_action(op.at("a")); return; }
    std::string kind = op.str("kind"), name = op.str("name"), text = op.str("text");
    bool tol = op.num("tol");
    int r = 0;
    if (kind == "int") { long v = (long)op.num("i"); SutScope s; r = this->MeasurementNumericInteger(v, name, tol); }
    else if (kind == "float") { float f; uint32_t b = (uint32_t)op.num("i"); memcpy(&f, &b, 4); SutScope s; r = this->MeasurementNumericFloat(f, name, tol); }
    else if (kind == "double") { double f; uint64_t b = (uint64_t)op.num("i"); memcpy(&f, &b, 8); SutScope s; r = this->MeasurementNumericDouble(f, name, tol); }
    else if (kind == "bool") { bool b = op.num("i"); SutScope s; r = this->MeasurementNumericBoolean(b, name, tol); }
    else if (kind == "string") { SutScope s; r = this->MeasurementTextString(text, name); }
    else if (kind == "plain") { SutScope s; r = this->MeasurementTextPlain(text, name); }
    else if (kind == "ftext") { SutScope s; r = this->MeasurementFileTextPlain(text, name); }
    else if (kind == "fpng") { SutScope s; r = this->MeasurementFileImagePNG(text, name); }
    else if (kind == "fjpeg") { SutScope s; r = this->MeasurementFileImageJPEG(text, name); }
    else fatal("harness", "unknown measurement kind " + kind);
    rp->res["mret"].push(r);
  }
};
void run_test(RunProc& rp) {
  const J& spec = *rp.spec;
  LocaleScope restore;
  if (spec.num("locale") && spec.num("locale_at") < 0) use_locale((int)spec.num("locale"));
  Proc& p = P();
  std::vector<std::string> args = {"prog"};
  for (auto& a : spec.at("args").a) args.push_back(a.s);
  char** argv;
  std::string tolv = spec.str("tolv");
  std::vector<std::string> search;
  for (auto& s : spec.at("search").a) search.push_back(s.s);
  std::string apiin = spec.str("api_in"), apiout = spec.str("api_out");
  ScriptTest* t;
  {
    SutScope s; // the argument vector lives in checked memory
    argv = (char**)arena_alloc_nofault((args.size() + 1) * sizeof(char*));
    for (size_t i = 0; i < args.size(); ++i) { argv[i] = (char*)arena_alloc_nofault(args[i].size() + 1); HostScope h; memcpy(argv[i], args[i].c_str(), args[i].size() + 1); }
    argv[args.size()] = 0;
    t = new ScriptTest;
    if (!tolv.empty()) t->SetRelativeTolerance(strtod(tolv.c_str(), 0));
    if (!search.empty()) { fileutil::PathList pl; for (auto& d : search) pl.push_back(fileutil::PathName(d)); t->SetInFileSearchPath(pl); }
    for (auto& d : spec.at("prepend").a) t->PrependInFileSearchPath(fileutil::PathName(d.s));
    if (!apiin.empty()) t->SetInFileName(apiin);
    if (!apiout.empty()) t->SetOutFileName(apiout);
    if (spec.has("api_ret")) t->SetExpectedReturn((int)spec.num("api_ret"));
  }
  t->rp = &rp;
  t->outpath = spec.str("outpath");
  if (spec.num("ask")) { rp.res["said"] = J::obj(); t->ask("before"); }
  p.armed = true;
  int runs = (int)spec.num("runs", 1);
  int r = 0;
  std::vector<char*> av(argv, argv + args.size() + 1);
  for (int k = 0; k < runs; ++k) {
    { HostScope h; std::copy(av.begin(), av.end(), argv); } // every run is given the arguments as they were
    long f0 = 0, f1 = 0; for (auto& q : W->fired) if (q.first.compare(0, 9, "schedule/")) f0 += q.second;
    rp.res["completed"] = 0;
    { SutScope s; r = t->Main((int)args.size(), argv); }
    for (auto& q : W->fired) if (q.first.compare(0, 9, "schedule/")) f1 += q.second;
    rp.res["rets"].push(r); rp.res["hits"].push(f1 - f0); rp.res["comps"].push(rp.res.num("completed"));
  }
  rp.res["ret"] = r;
  rp.res["returned"] = 1;
  long lv0 = 0;
  for (auto& o : W->ofds) if (o->proc == p.id && o->open) ++lv0;
  rp.res["open_after_main"] = lv0;
  event("ret", std::to_string(r));
  p.armed = false;
  if (spec.num("ask")) t->ask("after");
  p.armed = true;
  { SutScope s; delete t; }
  p.armed = false;
  long lv = 0;
  for (auto& o : W->ofds) if (o->proc == p.id && o->open) ++lv;
  rp.res["open_after"] = lv;
  { SutScope s; for (size_t i = 0; i <= args.size(); ++i) (void)0; }
}
struct Reg { Reg() { add_kind("test", run_test); } } reg;
}
}
