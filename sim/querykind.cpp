// The "query" kind: file system queries, each judged against the states the
// simulated file system went through while the query ran.
#include "exec.h"
#include "FileUtilities/FileUtilities.h"
#include "FileUtilities/PathName.h"
#include <algorithm>
#include <cstring>
#include <set>
#include <stdexcept>
using namespace sim;
using fileutil::PathName;
using fileutil::PathList;
namespace {
struct State { NodeP root; std::string cwd; };
struct Win { // states seen during a query
  std::vector<State> s;
  bool fault = false; // an injected failure hit one of its calls
  bool one() const { return s.size() == 1 && !fault; }
};
NodeP at(const State& st, const std::string& path, int* err = nullptr) {
  int e = 0; if (!err) err = &e;
  if (path.empty()) { *err = 2; return NodeP(); }
  if (path.size() > 4095) { *err = 36; return NodeP(); }
  NodeP n = lookup(norm(path, st.cwd), err, st.root);
  if (n && !n->dir && path.back() == '/') return NodeP();
  return n;
}
struct Q {
  RunProc& rp; J& res; long qno = 0;
  explicit Q(RunProc& r) : rp(r), res(r.res) { res["bad"] = J::arr(); }
  void bad(const std::string& key, const std::string& msg) { J e = J::obj(); e["key"] = key; e["msg"] = "query " + std::to_string(qno) + ": " + msg; res["bad"].push(e); }
  static long harm() { long n = 0; for (auto& f : W->fired) if (f.first.compare(0, 4, "env/") && f.first.find("split") == std::string::npos) n += f.second; return n; }
};
std::string show(const std::string& p) { return "\"" + (p.size() > 60 ? p.substr(0, 60) + "..." : p) + "\""; }
void run_query(RunProc& rp) {
  Proc& p = P();
  Q q(rp);
  std::map<std::string, PathName*> kept; std::vector<PathName*> objs; // path name objects which are asked again later
  p.armed = true;
  for (auto& op : rp.spec->at("qs").a) {
    std::string k = op.str("q"), path = op.str("path");
    event("op", std::to_string(q.qno) + " " + k + " " + path);
    size_t h0 = W->history.size() - 1; long f0 = Q::harm(), cd0 = W->fired["env/chdir"];
    std::map<std::string, std::string> env0 = p.env;
    std::string cwd0 = p.cwd;
    bool threw = false, nomem = false, yes = false; std::string text; std::vector<std::string> list;
    std::vector<std::string> sp; for (auto& d : op.at("list").a) sp.push_back(d.s);
    try {
      SutScope s;
      PathName* used = 0; long via = op.num("via");
      PathName fresh(via ? std::string("/") : path);
      if (via) {
        PathName* o = 0; { HostScope h; auto it = kept.find(path); if (it != kept.end()) o = it->second; else if (via > 1 && !objs.empty()) o = objs[(size_t)op.num("of") % objs.size()]; }
        if (!o) { o = new PathName(path); HostScope h; objs.push_back(o); kept[path] = o; }
        if (via == 1) used = o;
        else if (via == 2) { // a copy with another name
          PathName* c = new PathName(*o); { HostScope h; objs.push_back(c); } c->SetPathName(path); used = c;
        } else if (via == 3) { fresh = *o; fresh.SetPathName(path); }
        else { PathName n(path); *o = n; HostScope h; for (auto it = kept.begin(); it != kept.end();) if (it->second == o) it = kept.erase(it); else ++it; kept[path] = o; used = o; }
      }
      PathName& pn = used ? *used : fresh;
      if (k == "exists") yes = pn.Exists();
      else if (k == "file") yes = pn.IsFile();
      else if (k == "dir") yes = pn.IsDirectory();
      else if (k == "readable") yes = pn.IsReadable();
      else if (k == "writable") yes = pn.IsWritable();
      else if (k == "executable") yes = pn.IsExecutable();
      else if (k == "list") { PathList l = pn.SearchDirectory(); HostScope h; for (auto& x : l) list.push_back(std::string(x.GetPathName().c_str(), x.GetPathName().size())); }
      else if (k == "search") { PathList l; for (auto& d : sp) l.push_back(PathName(d)); PathName r = pn.SearchPathList(l); HostScope h; text = std::string(r.GetPathName().c_str()); }
      else if (k == "cwd") { PathName r = fileutil::GetCurrentDirectory(); HostScope h; text = std::string(r.GetPathName().c_str()); }
      else if (k == "chdir") yes = fileutil::SetCurrentDirectory(pn);
      else if (k == "env") { PathList l = fileutil::GetPathFromEnviroment(path); HostScope h; for (auto& x : l) list.push_back(std::string(x.GetPathName().c_str())); }
      else fatal("harness", "unknown query " + k);
    } catch (std::bad_alloc&) { HostScope h; threw = nomem = true; }
    catch (std::exception&) { HostScope h; threw = true; }
    HostScope h;
    Win w;
    for (size_t i = h0; i < W->history.size(); ++i) w.s.push_back({W->history[i], W->hist_cwd[i]});
    w.fault = Q::harm() != f0;
    auto any = [&](std::function<bool(const State&)> f) { for (auto& s : w.s) if (f(s)) return true; return false; };
    auto all = [&](std::function<bool(const State&)> f) { for (auto& s : w.s) if (!f(s)) return false; return true; };
    log("  answer " + std::to_string(yes) + (threw ? " threw" : "") + " " + text + " " + std::to_string(list.size()) + " states " + std::to_string(w.s.size()));
    probe(threw ? "query.error" : w.fault ? "query.with-fault" : w.s.size() > 1 ? "query.concurrent-change" : "query.plain");
    std::string what = k + " " + show(path);
    if (threw && k != "chdir" && !w.fault) q.bad("threw", what + " threw although no call failed");
    if (threw && k != "chdir") { ++q.qno; continue; }
    if (k == "exists" || k == "file" || k == "dir") {
      auto truth = [&](const State& s) { NodeP n = at(s, path); return n && (k == "exists" || (k == "dir") == n->dir); };
      if (yes && !any(truth)) q.bad("false-positive", what + " answered true, which holds in no state of the file system during the call");
      if (!yes && !w.fault && all(truth)) q.bad("false-negative", what + " answered false, but it held throughout the call and no call failed");
      if (yes) probe("query.yes"); else probe("query.no");
    } else if (k == "readable" || k == "writable" || k == "executable") {
      int bit = k == "readable" ? 4 : k == "writable" ? 2 : 1;
      auto weak = [&](const State& s) { NodeP n = at(s, path); return n && (n->mode & bit); };
      auto strong = [&](const State& s) { NodeP n = at(s, path); int b = bit; if (n && n->dir) b |= 1; return n && (n->mode & b) == b; };
      if (w.one()) { if (yes != strong(w.s[0])) q.bad(yes ? "false-positive" : "false-negative", what + " answered " + (yes ? "true" : "false") + ", the permissions say otherwise"); }
      else {
        if (yes && !any(weak)) q.bad("false-positive", what + " answered true, which holds in no state during the call");
        if (!yes && !w.fault && all(strong)) { bool steady = true; NodeP f = at(w.s[0], path); for (auto& s : w.s) if (at(s, path)->dir != f->dir) steady = false; if (steady) q.bad("false-negative", what + " answered false, but it held throughout the call"); }
      }
      if (yes) probe("query.yes"); else probe("query.no");
    } else if (k == "list") {
      std::set<std::string> un, in; bool first = true, listable = true;
      for (auto& s : w.s) {
        NodeP n = at(s, path); std::set<std::string> c;
        if (n && n->dir) for (auto& e : n->kids) c.insert(e.first);
        if (!(n && n->dir && (n->mode & 4))) { listable = false; c.clear(); in.clear(); first = false; NodeP m = at(s, path); if (m && m->dir) for (auto& e : m->kids) un.insert(e.first); continue; }
        un.insert(c.begin(), c.end());
        if (first) in = c; else { std::set<std::string> t; for (auto& x : in) if (c.count(x)) t.insert(x); in = t; }
        first = false;
      }
      if (!listable) in.clear();
      std::set<std::string> got; size_t dots = 0;
      for (auto& x : list) { if (x == "." || x == "..") { ++dots; continue; } if (!got.insert(x).second && w.s.size() == 1) q.bad("duplicate", what + " lists " + show(x) + " twice"); if (!un.count(x)) q.bad("never-present", what + " lists " + show(x) + ", which was never there"); }
      bool complete = true; std::string miss; for (auto& x : in) if (!got.count(x)) { complete = false; miss = x; }
      if (!complete && !w.fault) q.bad("missing", what + " does not list " + show(miss) + ", which was there throughout");
      if (!complete && w.fault && !list.empty()) q.bad("partial", what + " returned an incomplete listing after a failing call: " + show(miss) + " is missing");
      if (w.one() && !listable && !list.empty()) q.bad("false-positive", what + " listed something that is no readable directory");
      if (w.s.size() == 1 && listable && got == in) probe("query.listed", (long)in.size());
    } else if (k == "search") {
      auto full = [&](size_t i) { return !path.empty() && path[0] == '/' ? path : sp[i].empty() ? path : sp[i] + "/" + path; };
      auto isf = [&](const State& s, size_t i) { NodeP n = at(s, full(i)); return n && !n->dir; };
      if (text.empty()) {
        probe("query.search-none");
        for (size_t i = 0; i < sp.size() && !w.fault; ++i) if (all([&](const State& s) { return isf(s, i); })) { q.bad("not-found", "the file " + show(path) + " was in search directory " + show(sp[i]) + " throughout but was not found"); break; }
      } else {
        bool ok = false; bool inlist = false; std::string skipped;
        for (size_t i = 0; i < sp.size() && !ok; ++i) {
          if (norm(text, "/x") != norm(full(i), "/x")) continue;
          inlist = true;
          if (!any([&](const State& s) { return isf(s, i); })) continue;
          bool prior = true;
          for (size_t j = 0; j < i; ++j) if (!w.fault && norm(full(j), "/x") != norm(full(i), "/x") && all([&](const State& s) { return isf(s, j); })) { prior = false; skipped = sp[j]; }
          if (prior) ok = true;
        }
        if (!ok) q.bad("wrong-result", "searching " + show(path) + " returned " + show(text) + (!inlist ? ", which is in no search directory" : !skipped.empty() ? " although the earlier directory " + show(skipped) + " has it" : ", which was never a file"));
        probe("query.search-found");
      }
    } else if (k == "cwd") {
      if (text.empty()) { if (w.one()) { int e; if (at(w.s[0], ".", &e) && w.s[0].cwd.size() < 1024) q.bad("false-negative", "the current directory " + show(w.s[0].cwd) + " was not returned"); } probe("query.no"); }
      else { if (!any([&](const State& s) { return s.cwd == text; })) q.bad("fabricated", "the current directory is " + show(w.s[0].cwd) + ", returned was " + show(text)); probe("query.yes"); }
    } else if (k == "chdir") {
      auto weak = [&](const State& s) { NodeP n = at(s, path); return n && n->dir && (n->mode & 1); };
      bool moved = p.cwd != cwd0;
      bool envcd = W->fired["env/chdir"] != cd0;
      if (yes && !any(weak)) q.bad("false-positive", what + " reported success, but it was never an accessible directory");
      if (yes && !envcd && !any([&](const State& s) { return p.cwd == norm(path, s.cwd); })) q.bad("not-changed", what + " reported success but the current directory is " + show(p.cwd));
      if (!yes && !envcd && moved) q.bad("changed", what + " reported failure but the current directory changed to " + show(p.cwd));
      if (!yes && w.one() && weak(w.s[0])) q.bad("false-negative", what + " failed although it is an accessible directory");
      if (threw && !nomem && w.one()) { NodeP n = at(w.s[0], path); if (n && n->dir) q.bad("threw", what + " threw although it is a directory"); }
      if (yes) probe("query.yes"); else probe("query.no");
    } else if (k == "env") {
      auto split = [](const std::string& v) { std::vector<std::string> r; if (v.empty()) return r; size_t i = 0; for (;;) { size_t j = v.find(':', i); if (j == std::string::npos) { r.push_back(v.substr(i)); break; } r.push_back(v.substr(i, j - i)); i = j + 1; } return r; };
      auto get = [&](const std::map<std::string, std::string>& e) { auto it = e.find(path); return it == e.end() ? std::string() : it->second; };
      if (list != split(get(env0)) && list != split(get(p.env))) q.bad("wrong-list", "the path list of the environment variable " + path + " does not have the entries of its value");
      probe("query.yes", (long)list.size());
    }
    if (W->open_dirs) { q.bad("open-directory", what + " left " + std::to_string(W->open_dirs) + " directory handles open"); W->open_dirs = 0; }
    ++q.qno;
  }
  p.armed = false;
  { SutScope s; for (auto o : objs) delete o; }
  q.res["returned"] = 1; q.res["ret"] = 0; q.res["queries"] = q.qno;
}
struct RegQ { RegQ() { add_kind("query", run_query); } } regq;
}
