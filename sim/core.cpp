#include "core.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>

namespace sim {
World* W = nullptr;
Fiber* cur = nullptr;
Shared* shared = nullptr;
static Fiber mainf;
static Fiber* g_parent = &mainf; // fiber that waits for the current run_fibers call

Proc& P() { return *W->procs[cur->proc]; }

void log(const std::string& s) {
  HostScope h;
  W->loghash = fnv(s, W->loghash);
  W->loghash = fnv("\n", 1, W->loghash);
  if (shared && shared->loglen + s.size() + 1 < sizeof(shared->log)) {
    memcpy(shared->log + shared->loglen, s.data(), s.size());
    shared->log[shared->loglen + s.size()] = '\n';
    shared->loglen = shared->loglen + s.size() + 1;
  }
}
void probe(const char* name, long n) { HostScope h; W->probes[name] += n; }

void fatal(const char* kind, const std::string& msg) {
  if (cur) cur->sut = false;
  static int depth = 0;
  if (depth++) _exit(43);
  J r = J::obj();
  r["abnormal"] = kind;
  r["msg"] = msg;
  char hb[32];
  log(std::string("FATAL ") + kind + " " + msg);
  snprintf(hb, sizeof hb, "%016llx", (unsigned long long)W->loghash);
  r["hash"] = hb;
  r["steps"] = W->steps;
  J f = J::obj();
  for (auto& p : W->fired) f[p.first] = p.second;
  r["fired"] = f;
  J e = J::arr();
  for (auto& p : W->procs) { J c = J::obj(); for (auto& q : p->cnt) c[q.first] = q.second; e.push(c); }
  r["counts"] = e;
  std::string s = r.dump();
  if (shared) {
    memcpy(shared->res, s.data(), s.size());
    shared->reslen = s.size();
    shared->done = 1;
  }
  _exit(42);
}

NodeP clone(const NodeP& n) {
  NodeP c = std::make_shared<Node>();
  c->dir = n->dir; c->data = n->data; c->mode = n->mode;
  for (auto& k : n->kids) c->kids[k.first] = clone(k.second);
  return c;
}
void snapshot() { if (W->keep_history) { W->history.push_back(clone(W->root)); W->hist_cwd.push_back(W->procs[0]->cwd); } }

std::string norm(const std::string& path, const std::string& cwd) {
  std::string full = (!path.empty() && path[0] == '/') ? path : cwd + "/" + path;
  std::vector<std::string> comp;
  size_t i = 0;
  while (i < full.size()) {
    while (i < full.size() && full[i] == '/') ++i;
    size_t j = i;
    while (j < full.size() && full[j] != '/') ++j;
    if (j > i) {
      std::string c = full.substr(i, j - i);
      if (c == "..") { if (!comp.empty()) comp.pop_back(); }
      else if (c != ".") comp.push_back(c);
    }
    i = j;
  }
  std::string r;
  for (auto& c : comp) r += "/" + c;
  return r.empty() ? "/" : r;
}
NodeP lookup(const std::string& abs, int* err, const NodeP& root) {
  NodeP n = root ? root : W->root;
  size_t i = 0;
  if (err) *err = 0;
  while (i < abs.size()) {
    while (i < abs.size() && abs[i] == '/') ++i;
    size_t j = i;
    while (j < abs.size() && abs[j] != '/') ++j;
    if (j > i) {
      std::string c = abs.substr(i, j - i);
      if (c.size() > 255) { if (err) *err = ENAMETOOLONG; return NodeP(); }
      if (!n->dir) { if (err) *err = ENOTDIR; return NodeP(); }
      if (!(n->mode & 1)) { if (err) *err = EACCES; return NodeP(); }
      auto it = n->kids.find(c);
      if (it == n->kids.end()) { if (err) *err = ENOENT; return NodeP(); }
      n = it->second;
    }
    i = j;
  }
  return n;
}
static NodeP mkparents(const std::string& abs, std::string& leaf) {
  NodeP n = W->root;
  size_t i = 0;
  std::vector<std::string> comp;
  while (i < abs.size()) {
    while (i < abs.size() && abs[i] == '/') ++i;
    size_t j = i;
    while (j < abs.size() && abs[j] != '/') ++j;
    if (j > i) comp.push_back(abs.substr(i, j - i));
    i = j;
  }
  if (comp.empty()) return NodeP();
  for (size_t k = 0; k + 1 < comp.size(); ++k) {
    auto& c = n->kids[comp[k]];
    if (!c) { c = std::make_shared<Node>(); c->dir = true; c->mode = 7; }
    if (!c->dir) return NodeP();
    n = c;
  }
  leaf = comp.back();
  return n;
}
void put_file(const std::string& abs, const std::string& data, int mode) {
  std::string leaf; NodeP d = mkparents(abs, leaf); if (!d) return;
  NodeP f = std::make_shared<Node>(); f->data = data; f->mode = mode; d->kids[leaf] = f;
}
void put_dir(const std::string& abs, int mode) {
  std::string leaf; NodeP d = mkparents(abs, leaf); if (!d) return;
  auto& c = d->kids[leaf];
  if (!c || !c->dir) { c = std::make_shared<Node>(); c->dir = true; }
  c->mode = mode;
}
bool get_file(const std::string& abs, std::string& data) {
  // harness view: ignores permissions
  NodeP n = W->root; size_t i = 0;
  while (i < abs.size()) {
    while (i < abs.size() && abs[i] == '/') ++i;
    size_t j = i; while (j < abs.size() && abs[j] != '/') ++j;
    if (j > i) { if (!n->dir) return false; auto it = n->kids.find(abs.substr(i, j - i)); if (it == n->kids.end()) return false; n = it->second; }
    i = j;
  }
  if (n->dir) return false;
  data = n->data; return true;
}
static NodeP raw(const std::string& abs, NodeP* parent, std::string* leaf) {
  NodeP n = W->root; size_t i = 0; if (parent) *parent = NodeP();
  while (i < abs.size()) {
    while (i < abs.size() && abs[i] == '/') ++i;
    size_t j = i; while (j < abs.size() && abs[j] != '/') ++j;
    if (j > i) {
      std::string c = abs.substr(i, j - i);
      if (!n || !n->dir) return NodeP();
      if (parent) *parent = n;
      if (leaf) *leaf = c;
      auto it = n->kids.find(c);
      n = it == n->kids.end() ? NodeP() : it->second;
      if (!n) { size_t k = j; while (k < abs.size() && abs[k] == '/') ++k; if (k < abs.size() && parent) *parent = NodeP(); if (k < abs.size()) return NodeP(); }
    }
    i = j;
  }
  return n;
}
void apply_action(const J& a) {
  HostScope h;
  std::string op = a.str("op"), path = a.str("path"), data = a.str("data");
  long arg = a.num("arg");
  NodeP par; std::string leaf; NodeP n = raw(path, &par, &leaf);
  log("env " + op + " " + path + " " + std::to_string(arg) + (data.empty() ? "" : " #" + std::to_string(fnv(data) & 0xffffff)));
  if (op == "put") put_file(path, data, a.num("mode", 6));           // replace: new inode
  else if (op == "mkdir") put_dir(path, a.num("mode", 7));
  else if (op == "overwrite") { if (n && !n->dir) n->data = data; }   // same inode
  else if (op == "truncate") { if (n && !n->dir && (long)n->data.size() > arg) n->data.resize(arg); }
  else if (op == "append") { if (n && !n->dir) n->data += data; }
  else if (op == "flip") { if (n && !n->dir && (size_t)arg < n->data.size()) { size_t at = (size_t)arg; n->data[at] = (char)(n->data[at] ^ (1 << a.num("bit", 0))); } }
  else if (op == "poke") { if (n && !n->dir && !n->data.empty()) { size_t at = (size_t)arg % n->data.size(); n->data[at] = (char)a.num("byte", 'x'); } }
  else if (op == "remove") { if (par && n) par->kids.erase(leaf); }
  else if (op == "rename") {
    if (par && n) { std::string l2; NodeP keep = n; par->kids.erase(leaf); NodeP p2 = mkparents(a.str("to"), l2); if (p2) p2->kids[l2] = keep; }
  }
  else if (op == "chmod") { if (n) n->mode = arg; }
  else if (op == "chdir") { W->procs[a.num("proc")]->cwd = path; }
  else if (op == "setenv") { W->procs[a.num("proc")]->env[path] = data; }
  else if (op == "clock") { W->procs[a.num("proc")]->clock += arg; W->simtime_us += arg > 0 ? arg * 1000000LL : 0; }
  else if (op == "stall") { W->simtime_us += arg * 1000LL; for (auto& p : W->procs) p->clock += arg / 1000; }
  snapshot();
}

// ---------------------------------------------------------------- scheduler
static bool g_concurrent = false;
static std::vector<Fiber*> g_run; // fibers of the current run_fibers call

static void give(Fiber* f) {
  Fiber* self = cur;
  if (f == self) return;
  W->switches++;
  cur = f;
  sem_post(&f->sem);
  while (sem_wait(&self->sem) && errno == EINTR) {}
  cur = self;
}
static bool runnable(Fiber* f) { return !f->done && !f->parked_forever && !f->blocked; }
static void switch_to(int want) {
  if (!g_concurrent) return;
  HostScope h;
  std::vector<Fiber*> c;
  for (Fiber* f : g_run) if (runnable(f) && f != cur) c.push_back(f);
  if (c.empty()) return;
  Fiber* f = c[(size_t)want % c.size()];
  W->shape = fnv(&f->id, sizeof f->id, W->shape); W->fired["schedule/preemption"]++; log("switch " + std::to_string(cur->id) + "->" + std::to_string(f->id) + " @" + std::to_string(W->steps));
  give(f);
}
void maybe_switch() {
  if (W->next_preempt >= 0 && W->steps >= W->next_preempt && g_concurrent && cur && cur != &mainf) {
    int want = W->preempt[W->preempt_pos].second;
    W->preempt_pos++;
    W->next_preempt = W->preempt_pos < W->preempt.size() ? W->preempt[W->preempt_pos].first : -1;
    switch_to(want);
  }
}
void yield_blocked(const void* on) {
  // busy waiting in simulated time: let some other runnable fiber go on
  HostScope h;
  W->steps += 50;
  if (W->steps > W->step_cap) fatal("hang", "blocked forever");
  // in turn: whoever holds what this one waits for gets to run
  size_t n = g_run.size(), at = 0;
  for (size_t i = 0; i < n; ++i) if (g_run[i] == cur) at = i;
  for (size_t i = 1; i <= n; ++i) { Fiber* f = g_run[(at + i) % n]; if (runnable(f) && f != cur) { give(f); return; } }
  fatal("deadlock", "all threads blocked");
}
static void* fiber_main(void* a) {
  Fiber* f = (Fiber*)a;
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_sp = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 65536; sigaltstack(&ss, 0);
  while (sem_wait(&f->sem) && errno == EINTR) {}
  cur = f;
  try { f->entry(); }
  catch (std::exception& e) { f->sut = false; P().escaped = std::string("exception ") + e.what(); log("escaped exception"); }
  catch (...) { f->sut = false; P().escaped = "unknown exception"; log("escaped unknown exception"); }
  f->sut = false;
  f->done = true;
  if (g_concurrent) for (Fiber* g : g_run) if (runnable(g)) { cur = g; sem_post(&g->sem); return 0; }
  Fiber* up = g_parent;
  cur = up;
  sem_post(&up->sem);
  return 0;
}
void crash_now() {
  Fiber* f = cur;
  f->sut = false;
  Proc& p = P();
  p.crashed = true;
  p.outbuf.clear();
  log("crash p" + std::to_string(p.id));
  for (auto& o : W->ofds) if (o->proc == p.id) o->open = false;
  for (Fiber* g : g_run) if (g->proc == f->proc) g->parked_forever = true;
  Fiber* nx = g_parent;
  if (g_concurrent) for (Fiber* g : g_run) if (runnable(g)) { nx = g; break; }
  cur = nx;
  sem_post(&nx->sem);
  for (;;) pause();
}
void run_fibers(std::vector<std::pair<int, std::function<void()>>> entries, bool concurrent) {
  std::vector<Fiber*> all;
  for (auto& e : entries) {
    auto f = std::make_unique<Fiber>();
    f->id = (int)W->fibers.size() + 1; f->proc = e.first; f->entry = e.second;
    sem_init(&f->sem, 0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
    if (pthread_create(&f->th, &at, fiber_main, f.get())) { fprintf(stderr, "pthread_create failed\n"); _exit(44); }
    all.push_back(f.get());
    W->fibers.push_back(std::move(f));
  }
  Fiber* prev = cur;
  Fiber* self = prev ? prev : &mainf;
  static bool init = false;
  if (!init) { sem_init(&mainf.sem, 0, 0); init = true; }
  // a simulated thread may itself start threads and wait for them
  std::vector<Fiber*> run0 = g_run; bool conc0 = g_concurrent; Fiber* up0 = g_parent;
  g_parent = self;
  if (prev) { W->nested++; W->spans.emplace_back(W->steps, W->steps); }
  size_t span = W->spans.size();
  if (concurrent) {
    g_concurrent = all.size() > 1;
    g_run = all;
    Fiber* f = all[0];
    cur = f; sem_post(&f->sem);
    while (sem_wait(&self->sem) && errno == EINTR) {}
    for (Fiber* f2 : all) if (!f2->done && !f2->parked_forever) fatal("harness", "fiber left behind");
  } else {
    for (Fiber* f : all) {
      if (W->procs[f->proc]->crashed) continue;
      g_run = {f};
      cur = f; sem_post(&f->sem);
      while (sem_wait(&self->sem) && errno == EINTR) {}
    }
  }
  if (prev) { W->nested--; W->spans[span - 1].second = W->steps; }
  g_run = run0; g_concurrent = conc0; g_parent = up0;
  cur = prev;
}

// ---------------------------------------------------------------- events
Fault* event(const char* cls, const std::string& desc) {
  HostScope h;
  Proc& p = P();
  W->steps++;
  W->simtime_us += 50;
  long n = p.cnt[cls]++;
  long nio = p.cnt["io"]++;
  log("p" + std::to_string(p.id) + " " + cls + "#" + std::to_string(n) + " " + desc);
  W->shape = fnv(std::string(cls) + (char)p.id, W->shape);
  maybe_switch();
  Fault* hit = nullptr;
  for (Fault& f : W->faults) {
    if (f.proc != p.id) continue;
    bool here = (f.cls == cls && f.nth == n) || (f.cls == "io" && f.nth == nio);
    bool persist = f.cls == cls && f.act == "errno" && f.payload.num("persist") && n >= f.nth && n < f.nth + f.payload.num("persist");
    if (!here && !persist) continue;
    if (f.act == "env") { f.fired++; W->shape = fnv(f.payload.str("op"), W->shape); W->fired[std::string("env/") + f.payload.str("op")]++; apply_action(f.payload); }
    else if (f.act == "crash") {
      f.fired++; W->fired[std::string("crash/") + cls]++;
      if (!strcmp(cls, "write") && f.arg > 0) { hit = &f; continue; } // torn write handled by the seam
      crash_now();
    } else if (f.cls == "io") { f.fired++; } // nothing else on the generic counter
    else { f.fired++; W->fired[std::string(cls) + "/" + f.act + (f.act == "errno" ? ":" + std::string(strerrorname_np((int)f.arg) ? strerrorname_np((int)f.arg) : "?") : "")]++; hit = &f; }
  }
  if (hit) W->shape = fnv(hit->act, W->shape);
  if (hit) log("  fault " + hit->act + " " + std::to_string(hit->arg));
  return hit;
}

void world_init(World* w) {
  W = w;
  if (!w->root) { w->root = std::make_shared<Node>(); w->root->dir = true; }
  w->next_preempt = w->preempt.empty() ? -1 : w->preempt[0].first;
}
} // namespace sim
