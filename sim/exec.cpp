#include "exec.h"
#include "testkind.h"
#include <cstdio>
#include <cstring>
#include <execinfo.h>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <unistd.h>
#include <poll.h>
#include <time.h>

namespace sim {
extern bool mem_hook_on;
long g_cpu_limit = 20;
static std::map<std::string, KindFn>& kinds() { static std::map<std::string, KindFn> m; return m; }
void add_kind(const char* n, KindFn f) { kinds()[n] = f; }

static void dump_fs(const NodeP& n, const std::string& path, J& out) {
  for (auto& k : n->kids) {
    J e = J::obj();
    e["path"] = path + "/" + k.first;
    if (k.second->dir) e["dir"] = 1; else e["data"] = k.second->data;
    e["mode"] = k.second->mode;
    out.push(e);
    if (k.second->dir) dump_fs(k.second, path + "/" + k.first, out);
  }
}
static void load_fs(const J& fs) {
  for (auto& e : fs.a) if (e.num("dir")) put_dir(e.str("path"), 7); else put_file(e.str("path"), e.str("data"), (int)e.num("mode", 6));
  for (auto it = fs.a.rbegin(); it != fs.a.rend(); ++it) if (it->num("dir") && it->has("mode")) put_dir(it->str("path"), (int)it->num("mode", 7));
}
static J phase_child(const J& plan, const J& phase, const J& fs, bool dry, int phase_no) {
  World* w = new World;
  w->fill = (int)plan.num("fill");
  w->step_cap = plan.num("step_cap", 4000000);
  long bytes = 0; for (auto& s : plan.at("procs").a) bytes += (long)s.dump().size(); for (auto& e : fs.a) bytes += (long)e.str("data").size();
  if (bytes > 4000) w->step_cap += 1000 * (bytes - 4000) + (bytes > 8000 ? 100000000 : 0); // large inputs take more steps
  w->keep_history = plan.num("history");
  w->trace_shared = dry && plan.num("trace");
  std::vector<RunProc> rp;
  int id = 0;
  for (auto& s : plan.at("procs").a) {
    auto p = std::make_unique<Proc>();
    p->id = id;
    p->cwd = s.str("cwd", "/w"); p->host = s.str("host", "simhost"); p->clock = s.num("clock", 1000000000);
    p->split = (int)s.num("split"); p->split_seed = (uint64_t)s.num("seed", 1);
    for (auto& e : s.at("env").o) p->env[e.first] = e.second.s;
    p->armed = false;
    w->procs.push_back(std::move(p));
    RunProc r; r.id = id++; r.spec = &s; rp.push_back(r);
  }
  int fi = 0;
  for (auto& f : plan.at("faults").a) {
    Fault x; x.proc = (int)f.num("proc"); x.cls = f.str("cls"); x.act = f.str("act"); x.nth = f.num("nth"); x.arg = f.num("arg"); x.payload = f.at("payload"); x.idx = fi++;
    if (!dry || f.num("keep")) w->faults.push_back(x);
  }
  if (!dry) for (auto& p : phase.at("preempt").a) w->preempt.emplace_back(p.a[0].i, (int)p.a[1].i);
  world_init(w);
  load_fs(fs);
  arena_init();
  install_signals();
  mem_hook_on = true;
  snapshot();
  for (auto& g : phase.at("groups").a) {
    for (auto& a : g.at("pre").a) apply_action(a);
    std::vector<std::pair<int, std::function<void()>>> es;
    for (auto& pj : g.at("procs").a) {
      int i = (int)pj.i;
      RunProc* r = &rp[i];
      auto k = kinds().find(r->spec->str("kind", "test"));
      if (k == kinds().end()) fatal("harness", "unknown kind");
      KindFn fn = k->second;
      es.emplace_back(i, [r, fn, i] { W->procs[i]->started = true; fn(*r); W->procs[i]->finished = true; });
    }
    run_fibers(es, g.num("conc") != 0);
  }
  mem_hook_on = false;
  arena_check_all();
  J rec = J::obj();
  J ps = J::arr();
  for (size_t i = 0; i < rp.size(); ++i) {
    Proc& p = *w->procs[i];
    if (!p.started) { ps.push(J()); continue; }
    J r = rp[i].res;
    r["phase"] = phase_no;
    r["crashed"] = p.crashed; r["finished"] = p.finished;
    if (!p.escaped.empty()) r["escaped"] = p.escaped;
    r["out"] = p.out + (p.crashed ? "" : p.outbuf); r["err"] = p.err.substr(0, 2000); r["stdout_bad"] = p.stdout_bad;
    J c = J::obj(); for (auto& q : p.cnt) c[q.first] = q.second;
    r["cnt"] = c;
    ps.push(r);
  }
  rec["procs"] = ps;
  J os = J::arr();
  for (auto& o : w->ofds) {
    J e = J::obj();
    e["proc"] = o->proc; e["path"] = o->path; e["r"] = o->r; e["w"] = o->w; e["open"] = o->open; e["eof"] = o->eof_seen;
    e["rerr"] = o->rerr; e["werr"] = o->werr; e["max"] = o->max_size; e["trunc"] = o->trunc_seen; e["lost"] = o->lost;
    if (o->r) { bool cov = true; for (bool b : o->cov) if (!b) cov = false; e["cov"] = cov; e["dl"] = o->dl; }
    os.push(e);
  }
  rec["ofds"] = os;
  J files = J::arr(); dump_fs(w->root, "", files);
  rec["files"] = files;
  rec["steps"] = w->steps; rec["switches"] = w->switches; rec["simtime_us"] = w->simtime_us;
  rec["open_dirs"] = w->open_dirs;
  J f = J::obj(); for (auto& q : w->fired) f[q.first] = q.second; rec["fired"] = f;
  J pb = J::obj(); for (auto& q : w->probes) pb[q.first] = q.second; rec["probes"] = pb;
  if (w->trace_shared) {
    for (auto& q : w->touches) { auto& m = w->touched[q.second]; if (m.first == -1 && m.second && w->shared_steps.size() < 4000) w->shared_steps.push_back(q.first); }
    J sp = J::arr(); for (auto& q : w->spans) { J e = J::arr(); e.push(q.first); e.push(q.second); sp.push(e); } rec["spans"] = sp;
    J t = J::arr(); for (long s : w->shared_steps) t.push(s); rec["shared_steps"] = t; }
  char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)w->loghash);
  rec["hash"] = hb;
  snprintf(hb, sizeof hb, "%016llx", (unsigned long long)w->shape);
  rec["shape"] = hb;
  return rec;
}
static void add_counts(J& into, const J& from) { for (auto& q : from.o) into[q.first] = into.num(q.first) + q.second.i; }

J exec_plan(const J& plan, bool dry, std::string* logtext) {
  J rec = J::obj();
  J fs = plan.at("fs");
  J procs = J::arr();
  for (size_t i = 0; i < plan.at("procs").size(); ++i) procs.push(J());
  J ofds = J::arr(), fired = J::obj(), probes = J::obj(), phases = J::arr();
  long steps = 0, simtime = 0, switches = 0, open_dirs = 0;
  std::string hash, shape;
  J files;
  int no = 0;
  for (auto& ph : plan.at("phases").a) {
    shared->done = 0; shared->loglen = 0; shared->reslen = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(90);  struct rlimit rl = {(rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit + 5}; setrlimit(RLIMIT_CPU, &rl);
      struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
      J r = phase_child(plan, ph, fs, dry, no);
      std::string s = r.dump();
      if (s.size() > sizeof shared->res) { s = "{\"abnormal\":\"harness\",\"msg\":\"record too large\"}"; }
      memcpy(shared->res, s.data(), s.size());
      shared->reslen = s.size(); shared->done = 1;
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    J r;
    if (shared->done) r = J::parse(std::string(shared->res, shared->reslen));
    else { r = J::obj(); r["abnormal"] = "harness"; r["msg"] = "child ended without a record, status " + std::to_string(st); }
    if (logtext) *logtext += "== phase " + std::to_string(no) + "\n" + std::string(shared->log, shared->loglen);
    hash += r.str("hash"); shape += r.str("shape");
    steps += r.num("steps"); simtime += r.num("simtime_us"); switches += r.num("switches"); open_dirs += r.num("open_dirs");
    add_counts(fired, r.at("fired")); add_counts(probes, r.at("probes"));
    for (size_t i = 0; i < r.at("procs").size() && i < procs.size(); ++i) if (!r.at("procs").a[i].is_null()) procs.a[i] = r.at("procs").a[i];
    for (auto& o : r.at("ofds").a) { J e = o; e["phase"] = no; ofds.push(e); }
    if (r.has("abnormal")) { rec["abnormal"] = r.str("abnormal"); rec["msg"] = r.str("msg"); rec["abnormal_phase"] = no; if (r.has("counts")) rec["counts"] = r.at("counts"); break; }
    files = r.at("files");
    J pj = J::obj(); pj["steps"] = r.num("steps"); pj["files"] = r.at("files"); if (r.has("spans")) pj["spans"] = r.at("spans"); if (r.has("shared_steps")) pj["shared_steps"] = r.at("shared_steps");
    phases.push(pj);
    fs = files;
    ++no;
  }
  rec["procs"] = procs; rec["ofds"] = ofds; rec["files"] = files; rec["fired"] = fired; rec["probes"] = probes; rec["phases"] = phases;
  rec["steps"] = steps; rec["simtime_us"] = simtime; rec["switches"] = switches; rec["open_dirs"] = open_dirs;
  char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)fnv(hash));
  rec["hash"] = hb;
  snprintf(hb, sizeof hb, "%016llx", (unsigned long long)fnv(shape));
  rec["shape"] = hb;
  return rec;
}
static std::vector<void (*)()>& warmers() { static std::vector<void (*)()> v; return v; }
void add_warm(void (*f)()) { warmers().push_back(f); }
static void warm() {
  { void* b[4]; backtrace(b, 4); } // loads the unwinder
  for (auto f : warmers()) f(); // first use of locale facets happens here, outside any simulated run
  std::ostringstream o; o << 1 << 2.5 << 2.5f << true << 'c' << std::string("x") << std::setprecision(7) << 1e30 << 12345L << 3ul << std::endl;
  std::istringstream i("1 2.5 3.5 1 x"); int a; float f; double d; bool b; std::string s; long double ld; long l;
  i >> a >> f >> d >> b >> s;
  std::istringstream j("1.5 7"); j >> ld >> l;
  try { std::ostringstream t; t.exceptions(std::ios::badbit); throw std::runtime_error("warm"); } catch (std::exception&) {}
}
void harness_init() {
  // one memory layout for every run
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE)) {
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) {
      char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
      if (n > 0) {
        self[n] = 0;
        std::string cl; FILE* f = fopen("/proc/self/cmdline", "r"); int c; while (f && (c = fgetc(f)) != EOF) cl += (char)c; if (f) fclose(f);
        std::vector<char*> av; for (size_t i = 0; i < cl.size(); i += strlen(&cl[i]) + 1) av.push_back(&cl[i]);
        av.push_back(0);
        static char e1[] = "LC_ALL=C"; static char* env[] = {e1, 0};
        execve(self, av.data(), env);
      }
    }
  }
  shared = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  warm();
}
} // namespace sim
