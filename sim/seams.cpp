// libc seams: when simulated code is running, every file, directory, clock,
// host and environment call goes to the simulated world; otherwise to libc.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <iostream>
#include <unordered_map>
#include <algorithm>
using namespace sim;

namespace {
const int FD0 = 1 << 20;
template <class F> F real(const char* n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) { fprintf(stderr, "no %s\n", n); _exit(44); } return f; }
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__) = real<ret (*)(__VA_ARGS__)>(#name)
bool vfd(int fd) { return W && fd >= FD0 && fd < FD0 + (int)W->ofds.size(); }
OFD* ofd(int fd) { OFD* o = W->ofds[fd - FD0].get(); return o->open ? o : nullptr; }
std::unordered_map<FILE*, int>& files() { static auto* m = new std::unordered_map<FILE*, int>; return *m; }
struct SimDir { std::vector<std::string> names; size_t pos; NodeP node; struct dirent de; bool open; std::string path; };
std::vector<SimDir*>& dirs() { static auto* m = new std::vector<SimDir*>; return *m; }
std::string S(long v) { return std::to_string(v); }
uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9E3779B97F4A7C15ull)); return r.next(); }

int do_open(const char* path, int flags, mode_t mode) {
  HostScope h0; Fault* f = event("open", std::string(path) + ((flags & O_ACCMODE) == O_RDONLY ? " r" : " w"));
  HostScope h;
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  if (!*path) { errno = ENOENT; return -1; }
  if (strlen(path) > 4095) { errno = ENAMETOOLONG; return -1; }
  std::string abs = norm(path, P().cwd);
  int e = 0;
  NodeP n = lookup(abs, &e);
  size_t L = strlen(path);
  if (n && !n->dir && path[L - 1] == '/') { errno = ENOTDIR; return -1; }
  bool wr = (flags & O_ACCMODE) != O_RDONLY, rd = (flags & O_ACCMODE) != O_WRONLY;
  if (!n) {
    if (e != ENOENT || !(flags & O_CREAT)) { errno = e; return -1; }
    size_t sl = abs.rfind('/');
    std::string par = sl ? abs.substr(0, sl) : "/", leaf = abs.substr(sl + 1);
    NodeP d = lookup(par, &e);
    if (!d) { errno = e; return -1; }
    if (!d->dir) { errno = ENOTDIR; return -1; }
    if (leaf.empty()) { errno = EISDIR; return -1; }
    if ((d->mode & 3) != 3) { errno = EACCES; return -1; }
    if (path[L - 1] == '/') { errno = EISDIR; return -1; }
    n = std::make_shared<Node>(); n->mode = (mode & 0200 ? 2 : 0) | (mode & 0400 ? 4 : 0) | (mode & 0100 ? 1 : 0);
    d->kids[leaf] = n;
    snapshot();
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (n->dir) { if (wr) { errno = EISDIR; return -1; } }
    if ((flags & O_DIRECTORY) && !n->dir) { errno = ENOTDIR; return -1; }
    if ((rd && !(n->mode & 4)) || (wr && !(n->mode & 2))) { errno = EACCES; return -1; }
    if (wr && (flags & O_TRUNC)) { n->data.clear(); snapshot(); }
  }
  auto o = std::make_unique<OFD>();
  o->fd = FD0 + (int)W->ofds.size(); o->proc = P().id; o->node = n; o->path = abs; o->r = rd; o->w = wr; o->app = flags & O_APPEND;
  int fd = o->fd;
  W->ofds.push_back(std::move(o));
  log("  -> fd" + S(fd - FD0));
  return fd;
}
ssize_t do_read_at(int fd, char* buf, size_t n, long at, bool adv) {
  HostScope h0; Fault* f = event("read", "fd" + S(fd - FD0) + " " + S(n));
  HostScope h;
  OFD* o = ofd(fd);
  if (!o || !o->r) { errno = EBADF; return -1; }
  if (o->node->dir) { errno = EISDIR; return -1; }
  if (f && f->act == "errno") { if (f->arg != EINTR && f->arg != EAGAIN) o->rerr = true; errno = (int)f->arg; return -1; }
  const std::string& d = o->node->data;
  if (at < 0) at = o->pos;
  long av = (long)d.size() - at;
  if (av < 0) av = 0;
  long k = (long)n < av ? (long)n : av;
  if (f && f->act == "short" && k > 1) { k = std::min<long>(k, std::max<long>(1, f->arg)); }
  Proc& p = P();
  if (p.split && k > 1) {
    uint64_t v = mix(p.split_seed, (uint64_t)p.cnt["read"] * 2);
    if (p.split >= 2 && v % 7 == 0) { W->fired["read/EINTR"]++; log("  split EINTR"); errno = EINTR; return -1; }
    long lim = p.split == 3 ? 1 + (long)(v / 7 % 3) : 1 + (long)(v / 7 % (uint64_t)k);
    if (lim < k) { k = lim; W->fired["read/split"]++; }
  }
  if ((long)d.size() > o->max_size) o->max_size = d.size();
  if (k > 0) {
    memcpy(buf, d.data() + at, k);
    if ((long)o->dl.size() < at + k) { o->dl.resize(at + k); o->cov.resize(at + k, false); }
    for (long i = 0; i < k; ++i) { o->dl[at + i] = buf[i]; o->cov[at + i] = true; }
  } else if (n > 0) { o->eof_seen = true; if (o->max_size > at) o->trunc_seen = true; }
  if (in_arena(buf)) check_access(buf, k, true);
  if (adv) o->pos = at + k;
  o->nreads++;
  log("  = " + S(k));
  return k;
}
ssize_t do_write(int fd, const char* buf, size_t n) {
  HostScope h0; Fault* f = event("write", "fd" + S(fd - FD0) + " " + S(n) + " #" + S((long)(fnv(buf, n) & 0xffffff)));
  HostScope h;
  OFD* o = ofd(fd);
  if (!o || !o->w) { errno = EBADF; return -1; }
  if (f && f->act == "errno") { if (f->arg != EINTR) o->werr = true; errno = (int)f->arg; return -1; }
  long k = (long)n;
  if (f && f->act == "short" && k > 1) k = std::min<long>(k, std::max<long>(1, f->arg));
  bool die = false;
  if (f && f->act == "crash") { k = std::min<long>(k, f->arg); die = true; }
  if (f && f->act == "lost") o->lost = true;
  Proc& p = P();
  if (!die && p.split && k > 1) {
    uint64_t v = mix(p.split_seed, (uint64_t)p.cnt["write"] * 2 + 1);
    if (p.split >= 2 && v % 7 == 0) { W->fired["write/EINTR"]++; log("  split EINTR"); errno = EINTR; return -1; }
    long lim = 1 + (long)(v / 7 % (uint64_t)k);
    if (lim < k) { k = lim; W->fired["write/split"]++; }
  }
  if (!o->lost) {
    std::string& d = o->node->data;
    if (o->app) o->pos = d.size();
    if ((long)d.size() < o->pos + k) d.resize(o->pos + k);
    memcpy(&d[0] + o->pos, buf, k);
  }
  o->pos += k;
  o->nwrites++;
  log("  = " + S(k));
  if (die) crash_now();
  return k;
}
off_t do_lseek(int fd, off_t off, int wh) {
  HostScope h0; Fault* f = event("lseek", "fd" + S(fd - FD0) + " " + S(off) + " " + S(wh));
  HostScope h;
  OFD* o = ofd(fd);
  if (!o) { errno = EBADF; return -1; }
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  if (o->node->dir) { errno = EINVAL; return -1; }
  long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (long)o->node->data.size();
  if (wh == SEEK_END && (long)o->node->data.size() > o->max_size) o->max_size = o->node->data.size();
  if (b + off < 0) { errno = EINVAL; return -1; }
  o->pos = b + off;
  log("  = " + S(o->pos));
  return o->pos;
}
int do_close(int fd) {
  HostScope h0; Fault* f = event("close", "fd" + S(fd - FD0));
  HostScope h;
  OFD* o = ofd(fd);
  if (!o) { errno = EBADF; return -1; }
  o->open = false;
  if (o->lost) { W->fired["close/EIO(lost data)"]++; errno = EIO; return -1; }
  if (f && f->act == "errno") { o->werr = true; errno = (int)f->arg; return -1; }
  return 0;
}
void fill_stat(struct stat* s, const NodeP& n) {
  memset(s, 0, sizeof *s);
  s->st_mode = (n->dir ? S_IFDIR : S_IFREG) | ((n->mode & 7) << 6);
  s->st_size = n->dir ? 4096 : (off_t)n->data.size();
  s->st_nlink = 1; s->st_blksize = 4096; s->st_uid = 1000; s->st_gid = 1000;
  s->st_ino = 2; s->st_blocks = (s->st_size + 511) / 512;
}
NodeP resolve(const char* path, int* e) {
  if (!*path) { *e = ENOENT; return NodeP(); }
  if (strlen(path) > 4095) { *e = ENAMETOOLONG; return NodeP(); }
  NodeP n = lookup(norm(path, P().cwd), e);
  if (n && !n->dir && path[strlen(path) - 1] == '/') { *e = ENOTDIR; return NodeP(); }
  return n;
}
int do_stat(const char* path, struct stat* s) {
  HostScope h0; Fault* f = event("stat", path);
  HostScope h;
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  int e = 0; NodeP n = resolve(path, &e);
  if (!n) { errno = e; return -1; }
  fill_stat(s, n);
  return 0;
}
int do_access(const char* path, int mode) {
  HostScope h0; Fault* f = event("access", std::string(path) + " " + S(mode));
  HostScope h;
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  int e = 0; NodeP n = resolve(path, &e);
  if (!n) { errno = e; return -1; }
  if ((n->mode & mode) != mode) { errno = EACCES; return -1; }
  return 0;
}
ssize_t ck_read(void* c, char* b, size_t n) { return do_read_at((int)(long)c, b, n, -1, true); }
// stdio itself goes on after a short write
ssize_t ck_write(void* c, const char* b, size_t n) {
  size_t k = 0;
  while (k < n) { ssize_t r = do_write((int)(long)c, b + k, n - k); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; k += r; }
  return k;
}
int ck_seek(void* c, off64_t* o, int w) { off_t r = do_lseek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void* c) { return do_close((int)(long)c); }
FILE* do_fdopen(int fd, const char* mode) {
  HostScope h;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = fopencookie((void*)(long)fd, mode, io);
  files()[fp] = fd;
  return fp;
}
FILE* do_fopen(const char* path, const char* mode) {
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
  int fd = do_open(path, fl, 0666);
  if (fd < 0) return 0;
  return do_fdopen(fd, mode);
}
} // namespace

extern "C" {
// ------------------------------------------------------------- stdio
FILE* fopen(const char* p, const char* m) { REAL(FILE*, fopen, const char*, const char*); return active() ? do_fopen(p, m) : r(p, m); }
FILE* fopen64(const char* p, const char* m) { REAL(FILE*, fopen64, const char*, const char*); return active() ? do_fopen(p, m) : r(p, m); }
FILE* fdopen(int fd, const char* m) { REAL(FILE*, fdopen, int, const char*); return vfd(fd) ? do_fdopen(fd, m) : r(fd, m); }
int fileno(FILE* f) {
  REAL(int, fileno, FILE*);
  { HostScope h; auto it = files().find(f); if (it != files().end()) return it->second; }
  return r(f);
}
int fclose(FILE* f) {
  REAL(int, fclose, FILE*);
  bool sim_ = false;
  { HostScope h; sim_ = files().erase(f) > 0; }
  (void)sim_;
  // the cookie's close runs with the state of the caller
  if (sim_ && cur) { // libc frees its own FILE: keep its allocations out of the arena accounting
    return r(f);
  }
  return r(f);
}
// ------------------------------------------------------------- fds
int open(const char* p, int fl, ...) { REAL(int, open, const char*, int, ...); va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return active() ? do_open(p, fl, m) : r(p, fl, m); }
int open64(const char* p, int fl, ...) { REAL(int, open64, const char*, int, ...); va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return active() ? do_open(p, fl, m) : r(p, fl, m); }
int creat(const char* p, mode_t m) { REAL(int, creat, const char*, mode_t); return active() ? do_open(p, O_WRONLY | O_CREAT | O_TRUNC, m) : r(p, m); }
ssize_t read(int fd, void* b, size_t n) { REAL(ssize_t, read, int, void*, size_t); return vfd(fd) ? do_read_at(fd, (char*)b, n, -1, true) : r(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { REAL(ssize_t, pread, int, void*, size_t, off_t); return vfd(fd) ? do_read_at(fd, (char*)b, n, o, false) : r(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) { REAL(ssize_t, write, int, const void*, size_t); return vfd(fd) ? do_write(fd, (const char*)b, n) : r(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL(ssize_t, writev, int, const struct iovec*, int);
  if (!vfd(fd)) return r(fd, v, c);
  std::string s;
  { HostScope h; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); }
  ssize_t k = do_write(fd, s.data(), s.size());
  { HostScope h; std::string().swap(s); }
  return k;
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  REAL(ssize_t, readv, int, const struct iovec*, int);
  if (!vfd(fd)) return r(fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) { ssize_t k = do_read_at(fd, (char*)v[i].iov_base, v[i].iov_len, -1, true); if (k < 0) return t ? t : -1; t += k; if (k < (ssize_t)v[i].iov_len) break; }
  return t;
}
int close(int fd) { REAL(int, close, int); return vfd(fd) ? do_close(fd) : r(fd); }
off_t lseek(int fd, off_t o, int w) { REAL(off_t, lseek, int, off_t, int); return vfd(fd) ? do_lseek(fd, o, w) : r(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { REAL(off64_t, lseek64, int, off64_t, int); return vfd(fd) ? do_lseek(fd, o, w) : r(fd, o, w); }
int fsync(int fd) { REAL(int, fsync, int); if (!vfd(fd)) return r(fd); HostScope h0; Fault* f = event("fsync", "fd"); if (f && f->act == "errno") { errno = (int)f->arg; return -1; } OFD* o = ofd(fd); if (o && o->lost) { errno = EIO; return -1; } return 0; }
int fdatasync(int fd) { REAL(int, fdatasync, int); if (!vfd(fd)) return r(fd); return fsync(fd); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); if (!vfd(fd)) return r(fd, n); HostScope h0; Fault* f = event("write", "ftruncate"); HostScope h; if (f && f->act == "errno") { errno = (int)f->arg; return -1; } OFD* o = ofd(fd); if (!o || !o->w) { errno = EBADF; return -1; } o->node->data.resize(n); return 0; }
int ioctl(int fd, unsigned long q, ...) {
  REAL(int, ioctl, int, unsigned long, ...);
  va_list a; va_start(a, q); void* arg = va_arg(a, void*); va_end(a);
  if (!vfd(fd)) return r(fd, q, arg);
  if (q == FIONREAD) { OFD* o = ofd(fd); *(int*)arg = o ? (int)std::max<long>(0, (long)o->node->data.size() - o->pos) : 0; return 0; }
  errno = ENOTTY; return -1;
}
int poll(struct pollfd* f, nfds_t n, int t) { REAL(int, poll, struct pollfd*, nfds_t, int); if (n && vfd(f[0].fd)) { for (nfds_t i = 0; i < n; ++i) f[i].revents = f[i].events; return (int)n; } return r(f, n, t); }
int isatty(int fd) { REAL(int, isatty, int); if (vfd(fd) || active()) { errno = ENOTTY; return 0; } return r(fd); }
// ------------------------------------------------------------- stat family
int stat(const char* p, struct stat* s) { REAL(int, stat, const char*, struct stat*); return active() ? do_stat(p, s) : r(p, s); }
int stat64(const char* p, struct stat64* s) { REAL(int, stat64, const char*, struct stat64*); return active() ? do_stat(p, (struct stat*)s) : r(p, s); }
int lstat(const char* p, struct stat* s) { REAL(int, lstat, const char*, struct stat*); return active() ? do_stat(p, s) : r(p, s); }
int lstat64(const char* p, struct stat64* s) { REAL(int, lstat64, const char*, struct stat64*); return active() ? do_stat(p, (struct stat*)s) : r(p, s); }
int fstat(int fd, struct stat* s) {
  REAL(int, fstat, int, struct stat*);
  if (!vfd(fd)) return r(fd, s);
  HostScope h0; Fault* f = event("fstat", "fd" + S(fd - FD0)); HostScope h;
  OFD* o = ofd(fd); if (!o) { errno = EBADF; return -1; }
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  if ((long)o->node->data.size() > o->max_size) o->max_size = o->node->data.size();
  fill_stat(s, o->node); return 0;
}
int fstat64(int fd, struct stat64* s) { REAL(int, fstat64, int, struct stat64*); return vfd(fd) ? fstat(fd, (struct stat*)s) : r(fd, s); }
int fstatat(int d, const char* p, struct stat* s, int fl) { REAL(int, fstatat, int, const char*, struct stat*, int); return active() ? do_stat(p, s) : r(d, p, s, fl); }
int access(const char* p, int m) { REAL(int, access, const char*, int); return active() ? do_access(p, m) : r(p, m); }
int faccessat(int d, const char* p, int m, int fl) { REAL(int, faccessat, int, const char*, int, int); return active() ? do_access(p, m) : r(d, p, m, fl); }
int eaccess(const char* p, int m) { REAL(int, eaccess, const char*, int); return active() ? do_access(p, m) : r(p, m); }
int euidaccess(const char* p, int m) { REAL(int, euidaccess, const char*, int); return active() ? do_access(p, m) : r(p, m); }
// ------------------------------------------------------------- directories
DIR* opendir(const char* p) {
  REAL(DIR*, opendir, const char*);
  if (!active()) return r(p);
  HostScope h0; Fault* f = event("opendir", p); HostScope h;
  if (f && f->act == "errno") { errno = (int)f->arg; return 0; }
  int e = 0; NodeP n = resolve(p, &e);
  if (!n) { errno = e; return 0; }
  if (!n->dir) { errno = ENOTDIR; return 0; }
  if (!(n->mode & 4)) { errno = EACCES; return 0; }
  SimDir* d = new SimDir; d->pos = 0; d->node = n; d->open = true; d->path = p;
  d->names = {".", ".."};
  for (auto& k : n->kids) d->names.push_back(k.first);
  Rng g(P().split_seed + 17 * dirs().size());
  for (size_t i = d->names.size(); i > 1; --i) std::swap(d->names[i - 1], d->names[g.below(i)]);
  dirs().push_back(d); W->open_dirs++;
  return (DIR*)d;
}
static SimDir* isdir(DIR* d) { HostScope h; for (SimDir* s : dirs()) if ((DIR*)s == d) return s; return 0; }
struct dirent* readdir(DIR* dp) {
  REAL(struct dirent*, readdir, DIR*);
  SimDir* d = isdir(dp);
  if (!d) return r(dp);
  HostScope h0; Fault* f = event("readdir", d->path); HostScope h;
  if (!d->open) fatal("memory", "readdir on a closed directory");
  if (f && f->act == "errno") { errno = (int)f->arg; return 0; }
  while (d->pos < d->names.size()) {
    const std::string& nm = d->names[d->pos++];
    if (nm != "." && nm != ".." && !d->node->kids.count(nm)) continue;
    memset(&d->de, 0, sizeof d->de);
    memcpy(d->de.d_name, nm.c_str(), nm.size() + 1);
    d->de.d_ino = 3; d->de.d_reclen = sizeof d->de; d->de.d_type = DT_UNKNOWN;
    return &d->de;
  }
  return 0;
}
struct dirent64* readdir64(DIR* dp) { REAL(struct dirent64*, readdir64, DIR*); return isdir(dp) ? (struct dirent64*)readdir(dp) : r(dp); }
int closedir(DIR* dp) {
  REAL(int, closedir, DIR*);
  SimDir* d = isdir(dp);
  if (!d) return r(dp);
  HostScope h0; Fault* f = event("closedir", d->path); HostScope h;
  if (!d->open) fatal("memory", "closedir on a closed directory");
  d->open = false; W->open_dirs--;
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  return 0;
}
int dirfd(DIR* dp) { REAL(int, dirfd, DIR*); if (isdir(dp)) { errno = ENOTSUP; return -1; } return r(dp); }
void rewinddir(DIR* dp) { REAL(void, rewinddir, DIR*); SimDir* d = isdir(dp); if (d) d->pos = 0; else r(dp); }
int mkdir(const char* p, mode_t m) {
  REAL(int, mkdir, const char*, mode_t);
  if (!active()) return r(p, m);
  HostScope h0; Fault* f = event("mkdir", p); HostScope h;
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  int e; if (resolve(p, &e)) { errno = EEXIST; return -1; }
  put_dir(norm(p, P().cwd)); snapshot(); return 0;
}
int unlink(const char* p) {
  REAL(int, unlink, const char*);
  if (!active()) return r(p);
  HostScope h0; Fault* f = event("unlink", p); HostScope h;
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  int e = 0; NodeP n = resolve(p, &e); if (!n) { errno = e; return -1; }
  if (n->dir) { errno = EISDIR; return -1; }
  J a = J::obj(); a["op"] = "remove"; a["path"] = norm(p, P().cwd); apply_action(a); return 0;
}
int remove(const char* p) { REAL(int, remove, const char*); return active() ? unlink(p) : r(p); }
int rename(const char* a, const char* b) {
  REAL(int, rename, const char*, const char*);
  if (!active()) return r(a, b);
  HostScope h0; Fault* f = event("rename", std::string(a) + " " + b); HostScope h;
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  int e = 0; if (!resolve(a, &e)) { errno = e; return -1; }
  J x = J::obj(); x["op"] = "rename"; x["path"] = norm(a, P().cwd); x["to"] = norm(b, P().cwd); apply_action(x); return 0;
}
char* getcwd(char* b, size_t n) {
  REAL(char*, getcwd, char*, size_t);
  if (!active()) return r(b, n);
  HostScope h0; Fault* f = event("getcwd", ""); std::string c; bool gone;
  { HostScope h; c = P().cwd; int e; gone = !lookup(c, &e); }
  if (f && f->act == "errno") { errno = (int)f->arg; return 0; }
  if (gone) { errno = ENOENT; return 0; }
  if (!b) { if (!n) n = c.size() + 1; b = (char*)malloc(n); if (!b) return 0; }
  if (n <= c.size()) { errno = ERANGE; return 0; }
  memcpy(b, c.c_str(), c.size() + 1);
  { HostScope h; std::string().swap(c); }
  return b;
}
int chdir(const char* p) {
  REAL(int, chdir, const char*);
  if (!active()) return r(p);
  HostScope h0; Fault* f = event("chdir", p); HostScope h;
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  int e = 0; NodeP n = resolve(p, &e); if (!n) { errno = e; return -1; }
  if (!n->dir) { errno = ENOTDIR; return -1; }
  if (!(n->mode & 1)) { errno = EACCES; return -1; }
  P().cwd = norm(p, P().cwd); snapshot(); return 0;
}
char* getenv(const char* k) {
  REAL(char*, getenv, const char*);
  if (!active()) return r(k);
  HostScope h0; event("getenv", k); HostScope h;
  auto& e = P().env; auto it = e.find(k);
  return it == e.end() ? 0 : &it->second[0];
}
char* secure_getenv(const char* k) { REAL(char*, secure_getenv, const char*); return active() ? getenv(k) : r(k); }
// ------------------------------------------------------------- randomness
static void do_random(void* b, size_t n) { HostScope h; Proc& p = P(); Rng g(p.split_seed ^ 0xA11CE ^ (p.cnt["random"]++ << 20)); for (size_t i = 0; i < n; ++i) ((char*)b)[i] = (char)g.next(); log("p" + S(p.id) + " random " + S((long)n)); }
void arc4random_buf(void* b, size_t n) { REAL(void, arc4random_buf, void*, size_t); if (active()) do_random(b, n); else r(b, n); }
uint32_t arc4random(void) { REAL(uint32_t, arc4random, void); if (!active()) return r(); uint32_t v; do_random(&v, sizeof v); return v; }
ssize_t getrandom(void* b, size_t n, unsigned f) { REAL(ssize_t, getrandom, void*, size_t, unsigned); if (!active()) return r(b, n, f); do_random(b, n); return (ssize_t)n; }
int getentropy(void* b, size_t n) { REAL(int, getentropy, void*, size_t); if (!active()) return r(b, n); do_random(b, n); return 0; }
int rand(void) { REAL(int, rand, void); if (!active()) return r(); unsigned v; do_random(&v, sizeof v); return (int)(v & 0x7fffffff); }
long random(void) { REAL(long, random, void); if (!active()) return r(); unsigned v; do_random(&v, sizeof v); return (long)(v & 0x7fffffff); }
pid_t getpid(void) { REAL(pid_t, getpid, void); return active() ? 1000 + P().id : r(); }
// ------------------------------------------------------------- host, clock
int gethostname(char* b, size_t n) {
  REAL(int, gethostname, char*, size_t);
  if (!active()) return r(b, n);
  HostScope h0; Fault* f = event("gethostname", ""); HostScope h;
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  const std::string& s = P().host;
  if (s.size() + 1 > n) { memcpy(b, s.data(), n); errno = ENAMETOOLONG; return -1; } // not terminated, as glibc
  memcpy(b, s.c_str(), s.size() + 1); return 0;
}
time_t time(time_t* t) {
  REAL(time_t, time, time_t*);
  if (!active()) return r(t);
  HostScope h0; Fault* f = event("time", ""); HostScope h;
  time_t v = P().clock;
  if (f && f->act == "errno") { errno = (int)f->arg; return -1; }
  if (f && f->act == "jump") { P().clock += f->arg; v = P().clock; }
  if (t) *t = v;
  return v;
}
int gettimeofday(struct timeval* tv, void* z) { REAL(int, gettimeofday, struct timeval*, void*); if (!active()) return r(tv, z); HostScope h0; event("time", ""); HostScope h; tv->tv_sec = P().clock; tv->tv_usec = W->simtime_us % 1000000; return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) { REAL(int, clock_gettime, clockid_t, struct timespec*); if (!active()) return r(c, ts); HostScope h0; event("time", ""); HostScope h; ts->tv_sec = P().clock; ts->tv_nsec = (W->simtime_us % 1000000) * 1000; return 0; }
static char* do_ctime(const time_t* t, char* b) {
  struct tm tm;
  if (*t < -62135596800LL || *t > 253402300799LL || !gmtime_r(t, &tm)) { errno = EOVERFLOW; return 0; }
  return asctime_r(&tm, b);
}
static char* ctime_event(const time_t* t, char* b) {
  Fault* f = event("ctime", "");
  if (f && f->act == "errno") { errno = (int)f->arg; return 0; }
  char s[64];
  if (!do_ctime(t, s)) return 0;
  // written in two steps, like the formatted output of libc: whoever shares the buffer may see the first one
  memcpy(b, s, 11); b[11] = 0;
  if (W->trace_shared && W->nested && W->shared_steps.size() < 4000) W->shared_steps.push_back(W->steps);
  event("ctime2", "");
  memcpy(b, s, strlen(s) + 1);
  return b;
}
char* ctime_r(const time_t* t, char* b) { REAL(char*, ctime_r, const time_t*, char*); if (!active()) return r(t, b); HostScope h; return ctime_event(t, b); }
char* ctime(const time_t* t) {
  REAL(char*, ctime, const time_t*);
  if (!active()) return r(t);
  static char buf[64]; // shared by all threads, as in libc
  HostScope h;
  return ctime_event(t, buf);
}
unsigned sleep(unsigned s) { REAL(unsigned, sleep, unsigned); if (!active()) return r(s); HostScope h0; event("sleep", S(s)); HostScope h; W->simtime_us += s * 1000000LL; P().clock += s; return 0; }
int usleep(useconds_t s) { REAL(int, usleep, useconds_t); if (!active()) return r(s); HostScope h0; event("sleep", S(s)); HostScope h; W->simtime_us += s; return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { REAL(int, nanosleep, const struct timespec*, struct timespec*); if (!active()) return r(a, b); HostScope h0; event("sleep", ""); HostScope h; W->simtime_us += a->tv_sec * 1000000LL + a->tv_nsec / 1000; return 0; }
// calls that would leave the simulated world
int system(const char* c) { REAL(int, system, const char*); if (!active()) return r(c); HostScope h0; event("system", c); errno = ENOSYS; return -1; }
pid_t fork(void) { REAL(pid_t, fork, void); if (!active()) return r(); HostScope h0; event("fork", ""); errno = ENOSYS; return -1; }
}

// ------------------------------------------------------------- std streams
namespace {
struct OutBuf : std::streambuf { // buffered standard output of the current simulated process
  int flush_() {
    Proc& p = P();
    if (p.outbuf.empty()) return 0;
    HostScope h0; Fault* f = event("stdout", S((long)p.outbuf.size()));
    HostScope h;
    if (f && f->act == "errno") { p.stdout_bad = true; p.outbuf.clear(); errno = (int)f->arg; return -1; }
    p.out += p.outbuf; p.outbuf.clear();
    return 0;
  }
  int overflow(int c) override { if (!cur) return c; { HostScope h; if (c != EOF) P().outbuf += (char)c; } if (P().outbuf.size() > 4096) return flush_() ? EOF : c; return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { if (!cur) return n; { HostScope h; P().outbuf.append(s, n); } if (P().outbuf.size() > 4096 && flush_()) return 0; return n; }
  int sync() override { if (!cur) return 0; return flush_(); }
};
struct ErrBuf : std::streambuf {
  int overflow(int c) override { if (!cur) return c; HostScope h; if (c != EOF) P().err += (char)c; return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { if (!cur) return n; HostScope h; P().err.append(s, n); return n; }
};
ssize_t so_write(void*, const char* b, size_t n) { if (cur) { HostScope h; P().outbuf.append(b, n); } return n; }
ssize_t se_write(void*, const char* b, size_t n) { if (cur) { HostScope h; P().err.append(b, n); } return n; }
}
namespace sim {
void install_streams() {
  std::cout.rdbuf(new OutBuf);
  static ErrBuf* e = new ErrBuf;
  std::cerr.rdbuf(e); std::clog.rdbuf(e);
  cookie_io_functions_t io = {0, so_write, 0, 0};
  stdout = fopencookie(0, "w", io); setvbuf(stdout, 0, _IONBF, 0);
  cookie_io_functions_t ie = {0, se_write, 0, 0};
  stderr = fopencookie(0, "w", ie); setvbuf(stderr, 0, _IONBF, 0);
}
}
