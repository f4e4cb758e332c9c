// Baton scheduler. Real pthreads (so thread_local is real), but exactly one runs at any time; who runs is decided at
// compiler-inserted callbacks (control-flow edges, loads, stores) and at intercepted synchronisation calls.
#include "sim.h"
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
#include <cstdlib>
#include <cerrno>
#include <cstdio>
#include <unistd.h>

namespace sim { namespace sched {
struct Th { sem_t sem, bye; u64 ev = 0; bool done = false; std::function<void()>* fn = nullptr; pthread_t p; char* lo = nullptr; char* hi = nullptr; u64 run = 0; };
static Th* th; static int nth; static Config cfg; static Rng* rng; static Ctx* cx; static bool active_ = false; static u64 nsw = 0, blockedSpins = 0;
static sem_t mainSem, readySem; static bool dead = false; static size_t xi = 0;
static thread_local int me = -1; static thread_local bool inside = false;
// shadow of shared memory: which threads touched / wrote each 8-byte word
struct Cell { u8 acc = 0, wr = 0; };
static std::unordered_map<uintptr_t, Cell>* shadow;
extern "C" char __data_start, _end, __executable_start;

int self() { return me; }
u64 switches() { return nsw; }
bool quiet() { return inside; }
Quiet::Quiet() : was(inside) { inside = true; }
Quiet::~Quiet() { inside = was; }

static void handover(int to) {
  int from = me;
  if (to == from) return;
  struct Keep { int e = errno; ~Keep() { errno = e; } } keep;
  nsw++; th[to].run = 0;
  sem_post(&th[to].sem);
  while (sem_wait(&th[from].sem)) {}
}
static int pickOther(bool replay) {
  (void)replay;
  std::vector<int> c; for (int i = 0; i < nth; i++) if (i != me && !th[i].done) c.push_back(i);
  if (c.empty()) return -1;
  return c[rng->below(c.size())];
}
static void record(const char* why, int to) {
  char b[96]; snprintf(b, sizeof b, "switch t=%d ev=%llu to=%d why=%d", me, (unsigned long long)th[me].ev, to, why[0] == 'p' ? 0 : 1); cx->sched.push_back(b);
}
static void event(int hot) {          // hot: 0 edge, 1 contended memory, 2 writable global memory
  Th& t = th[me]; t.ev++; t.run++;
  int to = -1;
  if (cfg.replay) {
    if (xi < cfg.explicitSwitches.size()) {
      const Op& o = cfg.explicitSwitches[xi];
      if ((int)o("t") == me && o("ev") == t.ev) { xi++; to = (int)o("to"); if (to < 0 || to >= nth || th[to].done || to == me) to = -1; }
      else if ((int)o("t") == me && o("ev") < t.ev) xi++;   // passed (after minimisation): drop it
      else if (th[(int)o("t") % nth].done) xi++;
    }
    if (to < 0 && t.run > 2000000) { for (int k = 1; k < nth && to < 0; k++) if (!th[(me + k) % nth].done) to = (me + k) % nth; }
  } else {
    bool sw = false;
    if (nsw >= cfg.maxSwitches) ;
    else if (hot == 1) sw = cfg.hotNum && rng->chance(cfg.hotNum, cfg.hotDen);
    else if (hot == 2) sw = cfg.globDen && rng->chance(1, cfg.globDen);
    else sw = cfg.edgeDen && rng->chance(1, cfg.edgeDen);
    if (!sw && t.run > 2000000) sw = true;
    if (sw) { to = pickOther(false); if (to >= 0) record("p", to); }
  }
  if (to >= 0) { inside = false; handover(to); inside = true; }
}
void point() { if (me < 0 || !active_ || inside) return; inside = true; event(0); inside = false; }
// the current thread cannot proceed: let another one run. Deterministic round robin; part of the code's behaviour, not a choice.
static void block() {
  inside = true;
  if (++blockedSpins > 200000) { dead = true; }
  int to = -1; for (int k = 1; k < nth && to < 0; k++) if (!th[(me + k) % nth].done) to = (me + k) % nth;
  inside = false;
  if (to < 0 || dead) { dead = true; sem_post(&mainSem); for (;;) pause(); }
  handover(to);
}
static void* entry(void* a) {
  int id = (int)(intptr_t)a; me = id; inside = true;
  pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  th[id].lo = (char*)lo; th[id].hi = (char*)lo + sz;
  sem_post(&readySem); // threads start, and below end, one after the other: what the C library allocates then is in a fixed order
  while (sem_wait(&th[id].sem)) {}
  inside = false;
  (*th[id].fn)();
  inside = true; th[id].done = true;
  int to = -1;
  if (cfg.replay) { for (int i = 0; i < nth && to < 0; i++) if (!th[i].done) to = i;
    if (xi < cfg.explicitSwitches.size()) { const Op& o = cfg.explicitSwitches[xi]; if ((int)o("t") == id && o("why") == 2) { xi++; int w = (int)o("to"); if (w >= 0 && w < nth && !th[w].done) to = w; } } }
  else { std::vector<int> c; for (int i = 0; i < nth; i++) if (!th[i].done) c.push_back(i);
    if (!c.empty()) { to = c[rng->below(c.size())]; char b[96]; snprintf(b, sizeof b, "switch t=%d ev=%llu to=%d why=2", id, (unsigned long long)th[id].ev, to); cx->sched.push_back(b); } }
  if (to >= 0) { nsw++; th[to].run = 0; sem_post(&th[to].sem); } else sem_post(&mainSem);
  while (sem_wait(&th[id].bye)) {}
  return nullptr;
}
bool run(std::vector<std::function<void()>> bodies, const Config& c, Ctx& ctx) {
  cfg = c; nth = (int)bodies.size(); th = new Th[nth]; Rng r(c.seed); rng = &r; cx = &ctx; nsw = 0; blockedSpins = 0; xi = 0; dead = false;
  std::unordered_map<uintptr_t, Cell> sh; shadow = &sh; sem_init(&mainSem, 0, 0); sem_init(&readySem, 0, 0);
  for (int i = 0; i < nth; i++) { sem_init(&th[i].sem, 0, 0); sem_init(&th[i].bye, 0, 0); th[i].fn = &bodies[i]; }
  active_ = true;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
  for (int i = 0; i < nth; i++) { if (pthread_create(&th[i].p, &at, entry, (void*)(intptr_t)i)) abort(); while (sem_wait(&readySem)) {} }
  int first = 0;
  if (cfg.replay) { if (!cfg.explicitSwitches.empty() && cfg.explicitSwitches[0]("why") == 3) { first = (int)cfg.explicitSwitches[0]("to") % nth; xi = 1; } }
  else { first = (int)rng->below(nth); char b[64]; snprintf(b, sizeof b, "switch t=0 ev=0 to=%d why=3", first); ctx.sched.push_back(b); }
  sem_post(&th[first].sem);
  while (sem_wait(&mainSem)) {}
  active_ = false;
  if (!dead) { for (int i = 0; i < nth; i++) { sem_post(&th[i].bye); pthread_join(th[i].p, nullptr); } delete[] th; }
  ctx.st.steps += nsw; ctx.st.faults["sched.preemption"] += nsw;
  for (auto& s : ctx.sched) { u64 hsh = 0; for (char ch : s) hsh = hsh * 131 + ch; ctx.shp(hsh); }
  return !dead;
}
static inline void mem(uintptr_t a, bool w) {
  if (me < 0 || !active_ || inside) return;
  Th& t = th[me];
  if ((char*)a >= t.lo && (char*)a < t.hi) { t.ev++; t.run++; return; }   // own stack: counts, never preempts
  inside = true;
  bool glob = a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end;
  if (a >= (uintptr_t)&__executable_start && a < (uintptr_t)&__data_start) { t.ev++; t.run++; inside = false; return; } // constants
  int keepErrno = errno; Cell& c = (*shadow)[a >> 3]; u8 bit = (u8)(1u << me);
  errno = keepErrno;
  bool hot = w ? (c.acc & ~bit) != 0 : (c.wr & ~bit) != 0;
  c.acc |= bit; if (w) c.wr |= bit;
  event(hot ? 1 : glob ? 2 : 0);
  inside = false;
}
}}
using namespace sim; using namespace sim::sched;

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (me < 0 || !active_ || inside) return; inside = true; event(0); inside = false; }
// memory accesses: the compiler's thread-sanitizer instrumentation, with this simulator in place of its run-time library
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void** a, void*) { mem((uintptr_t)a, true); } void __tsan_vptr_read(void** a) { mem((uintptr_t)a, false); }
#define R1(n) void n(void* a) { mem((uintptr_t)a, false); }
#define W1(n) void n(void* a) { mem((uintptr_t)a, true); }
#define RW(s) R1(__tsan_read##s) W1(__tsan_write##s) R1(__tsan_unaligned_read##s) W1(__tsan_unaligned_write##s) R1(__tsan_volatile_read##s) W1(__tsan_volatile_write##s) R1(__tsan_unaligned_volatile_read##s) W1(__tsan_unaligned_volatile_write##s) W1(__tsan_read_write##s) W1(__tsan_unaligned_read_write##s)
RW(1) RW(2) RW(4) RW(8) RW(16)
// a block operation is as many events as it moves words, so that it can be torn anywhere
static inline bool idle() { return me < 0 || !active_ || inside; }
static inline size_t chunk(size_t n) { size_t c = (n / 256 + 8) & ~(size_t)7; return c; }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (idle() || n > (1u << 20)) return __builtin_memmove(d, s, n);
  size_t c = chunk(n);
  for (size_t i = 0; i < n; i += c) { size_t k = n - i < c ? n - i : c; mem((uintptr_t)s + i, false); mem((uintptr_t)d + i, true); __builtin_memmove((char*)d + i, (const char*)s + i, k); }
  return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (idle() || (char*)d + n <= (char*)s || (char*)s + n <= (char*)d) return __tsan_memcpy(d, s, n);
  mem((uintptr_t)s, false); mem((uintptr_t)d, true); return __builtin_memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
  if (idle() || n > (1u << 20)) return __builtin_memset(d, v, n);
  size_t c = chunk(n);
  for (size_t i = 0; i < n; i += c) { size_t k = n - i < c ? n - i : c; mem((uintptr_t)d + i, true); __builtin_memset((char*)d + i, v, k); }
  return d;
}
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T* a, int) { mem((uintptr_t)a, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##b##_store(volatile T* a, T v, int) { mem((uintptr_t)a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { mem((uintptr_t)a, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { mem((uintptr_t)a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { mem((uintptr_t)a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { mem((uintptr_t)a, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { mem((uintptr_t)a, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { mem((uintptr_t)a, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { mem((uintptr_t)a, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { mem((uintptr_t)a, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { mem((uintptr_t)a, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { mem((uintptr_t)a, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, u8) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#ifdef SIM_THREADS
// ---- synchronisation seams -------------------------------------------------------------------------------------
int __cxa_guard_acquire(uint64_t* g) {
  u8* b = (u8*)g; if (b[0]) return 0;
  point();
  while (b[1]) { if (me < 0) abort(); block(); if (b[0]) return 0; }
  if (b[0]) return 0;
  b[1] = 1; point(); return 1;
}
void __cxa_guard_release(uint64_t* g) { u8* b = (u8*)g; b[0] = 1; b[1] = 0; point(); }
void __cxa_guard_abort(uint64_t* g) { u8* b = (u8*)g; b[1] = 0; point(); }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (me < 0 || !active_) { int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) usleep(10); return r; }
  point(); int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) block(); return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { point(); int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) { if (me < 0) usleep(10); else block(); } return r; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { point(); int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) { if (me < 0) usleep(10); else block(); } return r; }
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { pthread_mutex_unlock(m); if (me >= 0 && active_) block(); else usleep(10); return pthread_mutex_lock(m); }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  static_assert(sizeof(pthread_once_t) >= 4); volatile int* s = (volatile int*)o;
  if (*s == 2) return 0;
  point();
  while (*s == 1) { if (me < 0) usleep(10); else block(); }
  if (*s == 2) return 0;
  *s = 1; try { f(); } catch (...) { *s = 0; throw; } *s = 2; return 0;
}
int sched_yield(void) { if (me >= 0 && active_) block(); return 0; }
#endif
}
