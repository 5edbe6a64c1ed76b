// memcpy & co. of every library in the process: accesses made on behalf of
// simulated code are checked against the arena and are preemption points.
#include <cstddef>
namespace sim { struct Fiber; extern bool mem_hook_on; void mem_hook(const void*, size_t, bool); }
using namespace sim;
extern "C" {
static inline void copy_fwd(char* d, const char* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void* memcpy(void* d, const void* s, size_t n) { if (mem_hook_on && n) { mem_hook(s, n, false); mem_hook(d, n, true); } copy_fwd((char*)d, (const char*)s, n); return d; }
void* memmove(void* d, const void* s, size_t n) {
  if (mem_hook_on && n) { mem_hook(s, n, false); mem_hook(d, n, true); }
  char* a = (char*)d; const char* b = (const char*)s;
  if (a <= b || a >= b + n) copy_fwd(a, b, n);
  else for (size_t i = n; i-- > 0;) a[i] = b[i];
  return d;
}
void* memset(void* d, int c, size_t n) { if (mem_hook_on && n) mem_hook(d, n, true); char* p = (char*)d; size_t k = n; asm volatile("rep stosb" : "+D"(p), "+c"(k) : "a"(c) : "memory"); return d; }
int memcmp(const void* a, const void* b, size_t n) {
  if (mem_hook_on && n) { mem_hook(a, n, false); mem_hook(b, n, false); }
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; if (mem_hook_on) mem_hook(s, n + 1, false); return n; }
}
