// Seams by symbol interposition: allocation, entropy, the CA bundle file. Off (pass-through) unless a scenario installs them.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <random>
#include <stdexcept>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/random.h>

namespace sim {
namespace alloc {
static u8 pat = 0xA5; static u64 failAt_ = ~0ULL, failCount_ = 0, seen_ = 0, failed_ = 0; static bool armed_ = false; static int64_t live_ = 0; static u64 bytes_ = 0;
static thread_local int region_ = 0;
void fillPattern(u8 b) { pat = b; }
void arm(u64 f, u64 c) { failAt_ = f; failCount_ = c; seen_ = failed_ = 0; armed_ = true; }
u64 disarm() { armed_ = false; return failed_; }
u64 seen() { return seen_; }
int64_t live() { return live_; }
u64 requested() { return bytes_; }
Region::Region() { region_++; }
Region::~Region() { region_--; }
static bool shouldFail() {
  if (!armed_ || region_ == 0 || sched::quiet()) return false;
  u64 n = seen_++;
  if (n >= failAt_ && n - failAt_ < failCount_) { failed_++; return true; }
  return false;
}
static void* get(size_t n, size_t al, bool nothrow) {
  bytes_ += n;
  if (shouldFail()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  // a request this large is a failed allocation in any deployment; do not let it reach the sandbox's memory
  if (n > (4ULL << 30)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void* p = nullptr;
  if (al <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (n <= 65536) memset(p, pat, n); else memset(p, pat, 4096);
  live_++;
  return p;
}
static void put(void* p) { if (p) { live_--; free(p); } }
}
namespace entropy {
static Source src; static std::function<EntropyEvent(u64, size_t)> scr; static u64 calls_ = 0, issued_ = 0;
void install(Source s) { src = std::move(s); }
void script(std::function<EntropyEvent(u64, size_t)> f) { scr = std::move(f); }
u64 calls() { return calls_; }
u64 issued() { return issued_; }
void reset() { src = nullptr; scr = nullptr; calls_ = issued_ = 0; }
static bool active() { return (bool)src; }
static ssize_t serve(u8* p, size_t n) {
  u64 c = calls_++;
  EntropyEvent e{0, 0}; if (scr) e = scr(c, n);
  if (e.kind == 2) { errno = EINTR; return -1; }
  if (e.kind == 3) { errno = (int)e.arg; return -1; }
  if (e.kind == 1) n = std::min<size_t>(n, e.arg ? e.arg : 1);
  src(p, n); issued_ += n; return (ssize_t)n;
}
}
namespace files {
Script script;
static int fds[16]; static u64 offs[16]; static int nf = 0; static int efds[16]; static int ne = 0;
static bool mine(const char* p) { return script.active && p && script.path == p; }
static bool isEntropyPath(const char* p) { return entropy::active() && p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static int slot(int fd) { for (int i = 0; i < nf; i++) if (fds[i] == fd) return i; return -1; }
static int eslot(int fd) { for (int i = 0; i < ne; i++) if (efds[i] == fd) return i; return -1; }
static int makeFd() {
  int fd = memfd_create("sim", 0); size_t o = 0;
  while (o < script.content.size()) { ssize_t n = syscall(SYS_write, fd, script.content.data() + o, script.content.size() - o); if (n <= 0) break; o += n; }
  lseek(fd, 0, SEEK_SET); return fd;
}
static int openMine() {
  u64 oi = script.opens++; if (script.onOpen) script.onOpen(oi);
  if (script.openErr) { script.fired++; errno = script.openErr; return -1; }
  int fd = makeFd(); if (nf < 16) { fds[nf] = fd; offs[nf] = 0; nf++; } return fd;
}
static ssize_t readMine(int s, void* b, size_t n) {
  u64 idx = script.reads++;
  if (script.onRead) script.onRead(idx);
  if (script.chunk) n = std::min<size_t>(n, script.chunk);
  for (auto& f : script.faults) if (f.at == idx) {
    script.fired++;
    if (f.kind == 2) { errno = EINTR; return -1; }
    if (f.kind == 3) { script.eio++; errno = (int)f.arg; return -1; }
    if (f.kind == 4) { script.eof++; return 0; }
    if (f.kind == 1) n = std::min<size_t>(n, f.arg ? f.arg : 1);
  }
  size_t left = script.content.size() > offs[s] ? script.content.size() - offs[s] : 0; n = std::min(n, left);
  memcpy(b, script.content.data() + offs[s], n); offs[s] += n;
  lseek(fds[s], offs[s], SEEK_SET);
  return (ssize_t)n;
}
}
}
using namespace sim;
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

void* operator new(size_t n) { return alloc::get(n, 1, false); }
void* operator new[](size_t n) { return alloc::get(n, 1, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc::get(n, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc::get(n, 1, true); }
void* operator new(size_t n, std::align_val_t a) { return alloc::get(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return alloc::get(n, (size_t)a, false); }
void operator delete(void* p) noexcept { alloc::put(p); }
void operator delete[](void* p) noexcept { alloc::put(p); }
void operator delete(void* p, size_t) noexcept { alloc::put(p); }
void operator delete[](void* p, size_t) noexcept { alloc::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { alloc::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { alloc::put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { alloc::put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { alloc::put(p); }

// std::random_device would otherwise read the CPU's generator directly
std::random_device::result_type std::random_device::_M_getval() {
  unsigned v = 0; size_t n = 0; u8* p = (u8*)&v;
  while (n < sizeof v) { ssize_t k = entropy::active() ? entropy::serve(p + n, sizeof v - n) : syscall(SYS_getrandom, p + n, sizeof v - n, 0); if (k > 0) n += k; else if (errno != EINTR) throw std::runtime_error("random_device could not be read"); }
  return v;
}
extern "C" {
ssize_t getrandom(void* b, size_t n, unsigned fl) {
  if (entropy::active()) return entropy::serve((u8*)b, n);
  return syscall(SYS_getrandom, b, n, fl);
}
int getentropy(void* b, size_t n) {
  if (entropy::active()) { ssize_t r = entropy::serve((u8*)b, n); if (r == (ssize_t)n) return 0; if (r >= 0) { errno = EIO; } return -1; }
  return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1;
}
#ifndef SIM_NO_FILES
static int doOpen(int at, const char* p, int fl, mode_t m) {
  if (files::mine(p)) return files::openMine();
  if (files::isEntropyPath(p)) { int fd = memfd_create("e", 0); if (files::ne < 16) files::efds[files::ne++] = fd; return fd; }
  return (int)syscall(SYS_openat, at, p, fl, m);
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, int); va_end(v); }
int open(const char* p, int fl, ...) { MODE return doOpen(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { MODE return doOpen(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int at, const char* p, int fl, ...) { MODE return doOpen(at, p, fl, m); }
int openat64(int at, const char* p, int fl, ...) { MODE return doOpen(at, p, fl | O_LARGEFILE, m); }
static FILE* doFopen(const char* fn, const char* p, const char* m) {
  if (files::mine(p) || files::isEntropyPath(p)) { int fd = doOpen(AT_FDCWD, p, 0, 0); return fd < 0 ? nullptr : fdopen(fd, m); }
  return next<FILE* (*)(const char*, const char*)>(fn)(p, m);
}
FILE* fopen(const char* p, const char* m) { return doFopen("fopen", p, m); }
FILE* fopen64(const char* p, const char* m) { return doFopen("fopen64", p, m); }
ssize_t read(int fd, void* b, size_t n) {
  int s = files::slot(fd); if (s >= 0 && files::script.active) return files::readMine(s, b, n);
  if (files::eslot(fd) >= 0 && entropy::active()) return entropy::serve((u8*)b, n);
  return syscall(SYS_read, fd, b, n);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  int s = files::slot(fd);
  if (s >= 0 && files::script.active) { for (int i = 0; i < c; i++) if (v[i].iov_len) return files::readMine(s, v[i].iov_base, v[i].iov_len); return 0; }
  return syscall(SYS_readv, fd, v, c);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  int s = files::slot(fd); if (s >= 0 && files::script.active) { files::offs[s] = o; return files::readMine(s, b, n); }
  return syscall(SYS_pread64, fd, b, n, o);
}
off_t lseek(int fd, off_t o, int w) {
  off_t r = syscall(SYS_lseek, fd, o, w); int s = files::slot(fd); if (s >= 0 && r >= 0) files::offs[s] = r; return r;
}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int close(int fd) {
  int s = files::slot(fd); if (s >= 0) { files::nf--; files::fds[s] = files::fds[files::nf]; files::offs[s] = files::offs[files::nf]; }
  s = files::eslot(fd); if (s >= 0) files::efds[s] = files::efds[--files::ne];
  return (int)syscall(SYS_close, fd);
}
static int fakeStat(struct stat* st) {
  files::script.stats++;
  if (files::script.statErr) { files::script.fired++; errno = files::script.statErr; return -1; }
  if (files::script.openErr == ENOENT) { files::script.fired++; errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_nlink = 1;
  st->st_size = files::script.haveStatSize ? files::script.statSize : files::script.content.size(); return 0;
}
int stat(const char* p, struct stat* st) { if (files::mine(p)) return fakeStat(st); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { if (files::mine(p)) return fakeStat(st); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstat(int fd, struct stat* st) { if (files::slot(fd) >= 0 && files::script.active) return fakeStat(st); return (int)syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int fstatat(int d, const char* p, struct stat* st, int f) { if (files::mine(p)) return fakeStat(st); return (int)syscall(SYS_newfstatat, d, p, st, f); }
int fstatat64(int d, const char* p, struct stat64* st, int f) { return fstatat(d, p, (struct stat*)st, f); }
int access(const char* p, int m) {
  if (files::mine(p)) { if (files::script.openErr) { errno = files::script.openErr; return -1; } return 0; }
  return (int)syscall(SYS_access, p, m);
}
#endif
}
