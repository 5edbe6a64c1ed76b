// Deterministic simulator core: simulated processes/threads with a baton
// scheduler, in-memory file system, fault injection at system-call events,
// checked allocation arena, event log.
#pragma once
#include "json.h"
#include "rng.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <pthread.h>
#include <semaphore.h>

namespace sim {

// ---------------------------------------------------------------- file system
struct Node {
  bool dir = false;
  std::string data;
  int mode = 7; // owner bits rwx
  std::map<std::string, std::shared_ptr<Node>> kids;
};
typedef std::shared_ptr<Node> NodeP;
NodeP clone(const NodeP&);

struct OFD {
  int fd = -1, proc = 0;
  NodeP node;
  std::string path;
  bool r = false, w = false, app = false, open = true;
  long pos = 0;
  bool lost = false;       // writes silently discarded, close reports
  long max_size = 0;       // largest size seen when the data was read
  std::string dl;          // bytes delivered, by offset
  std::vector<bool> cov;   // offsets delivered
  bool eof_seen = false, rerr = false, werr = false, trunc_seen = false;
  long nreads = 0, nwrites = 0;
  bool covered_all() const { if ((long)dl.size() < max_size) return false; for (bool b : cov) if (!b) return false; return true; }
};

// ---------------------------------------------------------------- faults
struct Fault {
  int proc = 0;
  std::string cls, act;
  long nth = 0, arg = 0;
  J payload;
  int fired = 0;
  int idx = -1;
};

struct Proc {
  int id = 0;
  std::string cwd = "/", host = "simhost";
  std::map<std::string, std::string> env;
  long long clock = 1000000000;
  std::string out, outbuf, err;      // standard output seen by the OS, pending, standard error
  std::map<std::string, long> cnt;   // events per class
  bool armed = true;
  bool crashed = false, finished = false, started = false, stdout_bad = false;
  std::string escaped;               // exception that left the entry function
  int split = 0; uint64_t split_seed = 0; // benign I/O splitting
  std::map<std::string, std::string> envp;
};

struct Fiber {
  int id = 0, proc = 0;
  pthread_t th;
  sem_t sem;
  bool sut = false, done = false, parked_forever = false, blocked = false;
  std::function<void()> entry;
  const void* blocked_on = nullptr;
};

struct World {
  NodeP root;
  std::vector<NodeP> history;       // snapshots after every mutation, if keep_history
  std::vector<std::string> hist_cwd; // working directory of process 0 in each snapshot
  bool keep_history = false;
  std::vector<std::unique_ptr<OFD>> ofds;
  std::vector<std::unique_ptr<Proc>> procs;
  std::vector<Fault> faults;
  std::vector<std::pair<long, int>> preempt; // (step, fiber index)
  size_t preempt_pos = 0;
  long steps = 0, next_preempt = -1, step_cap = 60000000, switches = 0;
  long long simtime_us = 0;
  uint64_t loghash = 1469598103934665603ull, shape = 1469598103934665603ull; // shape: order of event classes, switches and fault actions only
  std::vector<std::unique_ptr<Fiber>> fibers;
  int fill = 0;                     // arena fill mode
  std::map<std::string, long> fired; // "cls/act" -> count
  std::map<std::string, long> probes;
  long alloc_live = 0;
  int open_dirs = 0;
  int nested = 0;                   // run_fibers calls made by simulated threads
  std::vector<std::pair<long, long>> spans; // steps during which such threads ran
  std::map<uintptr_t, std::pair<int, bool>> touched; std::vector<std::pair<long, uintptr_t>> touches; // traced accesses of such threads
  bool trace_shared = false; std::vector<long> shared_steps; // steps that touch static data
};
extern World* W;
extern Fiber* cur;
inline bool active() { return cur && cur->sut; }
Proc& P();

void log(const std::string& s);
void probe(const char* name, long n = 1);
[[noreturn]] void fatal(const char* kind, const std::string& msg); // ends the simulated run

struct HostScope { bool s; Fiber* f; HostScope() : f(cur) { s = f ? f->sut : false; if (f) f->sut = false; } ~HostScope() { if (f) f->sut = s; } };
struct SutScope { bool s; Fiber* f; SutScope() : f(cur) { s = f ? f->sut : false; if (f) f->sut = true; } ~SutScope() { if (f) f->sut = s; } };

// An event of class cls.  Counts it, applies environment actions placed on
// it, may crash the process or switch fibers, and returns the error fault placed on it (or null).
Fault* event(const char* cls, const std::string& desc);
void crash_now();
void maybe_switch();         // preemption point
void yield_blocked(const void* on); // give the baton away until another fiber made progress

// Environment action on the file system (never fails loudly)
void apply_action(const J& a);
void snapshot();

// VFS helpers for harness use (no events, no faults)
std::string norm(const std::string& path, const std::string& cwd);
NodeP lookup(const std::string& abs, int* err = nullptr, const NodeP& root = NodeP());
void put_file(const std::string& abs, const std::string& data, int mode = 6);
void put_dir(const std::string& abs, int mode = 7);
bool get_file(const std::string& abs, std::string& data);

// Run a set of simulated threads under the baton scheduler until all are finished, crashed or parked.
void run_fibers(std::vector<std::pair<int, std::function<void()>>> entries, bool concurrent);

void world_init(World* w);

// seams used by more than one file
struct Shared {
  volatile int done;
  volatile size_t loglen, reslen;
  char log[6 << 20];
  char res[16 << 20];
};
extern Shared* shared;

// arena
void arena_init();
void arena_check_all();
bool in_arena(const void* p);
void check_access(const void* p, size_t n, bool write);
void hook(const void* p, size_t n, bool write);
long alloc_count();
void* arena_alloc_nofault(size_t n);
void install_signals();
void install_streams();
} // namespace sim
