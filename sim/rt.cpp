// Runtime under the instrumented code: checked arena behind malloc, the
// __tsan_* entry points (step counter, preemption points, access checks),
// static-initialisation guards and mutexes that cooperate with the baton
// scheduler, fatal signal reporting.
#include "core.h"
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
extern "C" char __data_start, _end;
namespace sim {
static char* A = nullptr;          // arena
static unsigned char* S = nullptr; // shadow, one byte per byte: 0 no access, 1 ok, 2 freed
static const size_t ASZ = 1ull << 29;
static size_t top = 0;
struct Hdr { uint64_t size, magic; };
static const uint64_t MAGIC = 0x51D0A11C0DE51D0Aull, FREED = 0xDEADFEEEDEADFEEEull;
static const size_t RZ = 32;
static long nalloc = 0;
static std::vector<char*>* blocks = nullptr;

void arena_init() {
  A = (char*)mmap(0, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  S = (unsigned char*)mmap(0, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (A == MAP_FAILED || S == MAP_FAILED) abort();
  blocks = new std::vector<char*>;
  top = 64;
}
bool in_arena(const void* p) { return A && (const char*)p >= A && (const char*)p < A + ASZ; }
long alloc_count() { return nalloc; }

static Fault* alloc_event() {
  HostScope h;
  Proc& p = P();
  if (!p.armed) return nullptr;
  long n = p.cnt["alloc"]++;
  W->steps++;
  for (Fault& f : W->faults)
    if (f.cls == "alloc" && f.proc == p.id && n >= f.nth && n < f.nth + (f.payload.num("persist") ? f.payload.num("persist") : 1)) {
      f.fired++; W->fired["alloc/ENOMEM"]++;
      log("p" + std::to_string(p.id) + " alloc#" + std::to_string(n) + " fails");
      return &f;
    }
  return nullptr;
}
static char* large[256]; static size_t nlarge;
static void check_block(char* p, const char* when);
static void* aalloc(size_t n, size_t align) {
  if (alloc_event()) { errno = ENOMEM; return 0; }
  if (n > (128u << 20) || top + n + 4 * RZ + align > ASZ) { HostScope h; log("huge allocation " + std::to_string(n)); errno = ENOMEM; return 0; }
  HostScope h;
  if (align < 16) align = 16;
  char* p = nullptr; Hdr* hd; size_t at;
  // large blocks are used again once some others have been freed after them
  if (n >= 16384 && align == 16 && nlarge > 12) for (size_t i = 0; i + 12 < nlarge; ++i) {
    char* c = large[i]; if (((Hdr*)(c - sizeof(Hdr)))->size != n) continue;
    check_block(c, "after its release"); p = c; memmove(large + i, large + i + 1, (nlarge - i - 1) * sizeof(char*)); --nlarge; break;
  }
  bool again = p != nullptr;
  if (!again) { at = top + sizeof(Hdr) + RZ; at = (at + align - 1) / align * align; p = A + at; } else at = p - A;
  hd = (Hdr*)(p - sizeof(Hdr));
  hd->size = n; hd->magic = MAGIC;
  int fill = W->fill;
  memset(p, fill == 0 ? 0xA5 : fill == 1 ? (int)((nalloc * 37 + 11) & 0xff) : 0, n);
  memset(p + n, 0xCB, RZ);
  memset(S + at, 1, n);
  nalloc++;
  W->alloc_live++;
  if (!again) { top = at + n + RZ; blocks->push_back(p); }
  return p;
}
void* arena_alloc_nofault(size_t n) { Proc& p = P(); bool a = p.armed; p.armed = false; void* r = aalloc(n, 16); p.armed = a; return r; }
static void check_block(char* p, const char* when) {
  Hdr* hd = (Hdr*)(p - sizeof(Hdr));
  if (hd->magic != MAGIC && hd->magic != FREED) fatal("memory", std::string("heap block header overwritten, found ") + when);
  unsigned char* e = (unsigned char*)p + hd->size;
  for (size_t i = 0; i < RZ; ++i) if (e[i] != 0xCB) fatal("memory", std::string("write past the end of a heap block of ") + std::to_string(hd->size) + " bytes, found " + when);
}
static void afree(void* v) {
  HostScope h;
  char* p = (char*)v;
  Hdr* hd = (Hdr*)(p - sizeof(Hdr));
  if (hd->magic == FREED) fatal("memory", "double free");
  if (hd->magic != MAGIC) fatal("memory", "free of a pointer that is not a heap block");
  check_block(p, "at free");
  hd->magic = FREED;
  size_t at = p - A;
  memset(S + at, 2, hd->size);
  memset(p, 0xDD, hd->size);
  if (hd->size >= 16384 && nlarge < sizeof large / sizeof *large) large[nlarge++] = p;
  W->alloc_live--;
}
void arena_check_all() { if (blocks) for (char* p : *blocks) check_block(p, "at the end"); }
void check_access(const void* v, size_t n, bool write) {
  if (!in_arena(v) || !n) return;
  size_t at = (const char*)v - A;
  for (size_t i = 0; i < n; ++i) {
    if (S[at + i] != 1) {
      HostScope h;
      fatal("memory", std::string(write ? "write" : "read") + (S[at + i] == 2 ? " of freed heap memory" : " outside of heap block") + ", " + std::to_string(n) + " bytes");
    }
  }
}
// first toucher of every word, and whether several threads touch it with a write among them
static void touch(const void* p, bool write) {
  HostScope h;
  if (W->touches.size() > 300000) return;
  uintptr_t a = (uintptr_t)p >> 3;
  auto it = W->touched.emplace(a, std::make_pair(cur->id, false)).first;
  if (it->second.first != cur->id) it->second.first = -1;
  if (write) it->second.second = true;
  W->touches.emplace_back(W->steps, a);
}
void hook(const void* p, size_t n, bool write) {
  if (!active()) return;
  World* w = W;
  if (++w->steps > w->step_cap) { HostScope h; fatal("hang", "step limit reached (endless loop)"); }
  if (in_arena(p)) { check_access(p, n, write); if (w->trace_shared && w->nested) touch(p, write); }
  else if (w->trace_shared && p >= (void*)&__data_start && p < (void*)&_end && w->shared_steps.size() < 4000) { HostScope h; w->shared_steps.push_back(w->steps); }
  if (w->next_preempt >= 0 && w->steps >= w->next_preempt) maybe_switch();
}
bool mem_hook_on = false;
void mem_hook(const void* p, size_t n, bool w) { if (active()) hook(p, n, w); }
} // namespace sim
using namespace sim;

// ---------------------------------------------------------------- malloc
extern "C" {
void* malloc(size_t n) { return active() ? aalloc(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (in_arena(p)) afree(p); else __libc_free(p); }
void* calloc(size_t a, size_t b) {
  if (!active()) return __libc_calloc(a, b);
  if (b && a > (size_t)-1 / b) { errno = ENOMEM; return 0; }
  void* p = aalloc(a * b, 16); if (p) memset(p, 0, a * b); return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!in_arena(p)) {
    if (!active()) return __libc_realloc(p, n);
    return __libc_realloc(p, n);
  }
  if (n == 0) { free(p); return 0; }
  size_t old = ((Hdr*)((char*)p - sizeof(Hdr)))->size;
  bool host = !active();
  if (host && cur) cur->sut = false;
  void* q = host ? __libc_malloc(n) : aalloc(n, 16);
  if (!q) return 0;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void* memalign(size_t al, size_t n) { return active() ? aalloc(n, al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
void* valloc(size_t n) { return memalign(4096, n); }

// ---------------------------------------------------------------- tsan entry points
void __tsan_init(void) {}
void __tsan_func_entry(void*) { hook(0, 0, false); }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void* p) { hook(p, n, false); } void __tsan_write##n(void* p) { hook(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { hook(p, n, false); } void __tsan_unaligned_write##n(void* p) { hook(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { hook(p, n, false); } void __tsan_volatile_write##n(void* p) { hook(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { hook(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { hook(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { hook(p, n, false); }
void __tsan_write_range(void* p, size_t n) { hook(p, n, true); }
void __tsan_vptr_update(void** p, void*) { hook(p, 8, true); }
void __tsan_vptr_read(void** p) { hook(p, 8, false); }
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T* p, int) { hook((void*)p, sizeof(T), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { hook((void*)p, sizeof(T), true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { hook((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { hook((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { hook((void*)p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- guards and mutexes
int __cxa_guard_acquire(long long* g) {
  volatile unsigned char* b = (volatile unsigned char*)g;
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
  if (!cur) { if (b[1]) abort(); b[1] = 1; return 1; }
  while (b[1]) {
    HostScope h;
    yield_blocked(g);
    if (b[0]) return 0;
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(long long* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[1] = 0; }

// a thread that waits for another one to run the function is blocked for the scheduler too
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  int* v = (int*)o;
  if (__atomic_load_n(v, __ATOMIC_ACQUIRE) & 2) return 0;
  if (!cur) { static int (*r)(pthread_once_t*, void (*)(void)) = (int (*)(pthread_once_t*, void (*)(void)))dlsym(RTLD_NEXT, "pthread_once"); return r(o, f); }
  while (*v & 1) {
    HostScope h;
    yield_blocked(o);
    if (*v & 2) return 0;
  }
  __atomic_store_n(v, 1, __ATOMIC_RELEASE);
  struct Undo { int* v; ~Undo() { if (v) __atomic_store_n(v, 0, __ATOMIC_RELEASE); } } undo = {v};
  f();
  undo.v = nullptr;
  __atomic_store_n(v, 2, __ATOMIC_RELEASE);
  return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*rl)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  static int (*rt)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  if (!active()) return rl(m);
  hook(0, 0, false);
  for (;;) {
    int r = rt(m);
    if (r != EBUSY) return r;
    HostScope h;
    yield_blocked(m);
  }
}

// ---------------------------------------------------------------- fatal endings
void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) {
  (void)line; (void)fn;
  const char* b = strrchr(file, '/');
  fatal("assert", std::string("assertion failed in ") + (b ? b + 1 : file) + ": " + expr);
}
void abort(void) {
  static void (*ra)(void) = nullptr;
  if (shared && W && !shared->done) fatal("abort", "abort() called");
  if (!ra) ra = (void (*)(void))dlsym(RTLD_NEXT, "abort");
  ra();
  _exit(134);
}
}
namespace sim {
static void on_sig(int s) {
  fatal(s == SIGXCPU ? "hang" : s == SIGALRM ? "stuck" : "signal", s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : s == SIGXCPU ? "cpu time limit" : s == SIGALRM ? "stuck" : "signal");
}
void install_signals() {
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_sp = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 65536; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU, SIGALRM}) sigaction(s, &sa, 0);
}
}
