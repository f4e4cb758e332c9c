// Deterministic simulation core: seeded randomness, explicit plans, fault seams, baton scheduler.
// A run is a pure function of (plan text, code). Plans are generated from one integer seed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <span>
#include <array>
#include <functional>
#include <memory>
#include <algorithm>

namespace sim {
using u64 = uint64_t; using u32 = uint32_t; using u8 = uint8_t;
using Bytes = std::vector<uint8_t>;

inline u64 mix(u64 a, u64 b = 0x9e3779b97f4a7c15ULL) {
  u64 z = a * 0x9e3779b97f4a7c15ULL + b; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix(seed, 0x1234567)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
  bool chance(u64 num, u64 den) { return below(den) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// Data is never stored in plans: it is regenerated from (seed, length). The low bits of the seed select a style.
Bytes data(u64 seed, size_t n);
inline u64 dataSeed(Rng& r) { return r.next() >> 16; }

struct Op {
  std::string k;
  std::vector<std::pair<std::string, u64>> a;
  Op() {}
  Op(std::string k, std::vector<std::pair<std::string, u64>> a = {}) : k(std::move(k)), a(std::move(a)) {}
  bool has(const char* n) const { for (auto& p : a) if (p.first == n) return true; return false; }
  u64 operator()(const char* n, u64 d = 0) const { for (auto& p : a) if (p.first == n) return p.second; return d; }
  std::string text() const { std::string s = k; for (auto& p : a) s += " " + p.first + "=" + std::to_string(p.second); return s; }
};
using Plan = std::vector<Op>;
bool parseOp(const std::string& line, Op& op);

struct Violation { std::string cls, msg; };

struct Stats {
  std::map<std::string, u64> faults, probes;   // fault kinds that actually fired / rare conditions reached
  u64 simtime = 0, steps = 0;
};

struct Ctx {
  Stats st; u64 h = 0xcbf29ce484222325ULL; u64 shape = 0xcbf29ce484222325ULL; u64 nontrivial = 0;
  std::vector<std::string> sched;              // schedule actually taken, as plan lines
  std::vector<std::string> known;              // known-finding classes reached (run continues)
  void note(u64 v) { h = (h ^ v) * 0x100000001b3ULL; h ^= h >> 29; }
  void note(const Bytes& b) { note(std::span<const u8>(b)); }
  void note(std::span<const u8> b) { note(b.size()); for (u8 c : b) h = (h ^ c) * 0x100000001b3ULL; }
  void note(const std::string& s) { note(std::span<const u8>((const u8*)s.data(), s.size())); }
  void shp(u64 v) { shape = (shape ^ v) * 0x100000001b3ULL; shape ^= shape >> 31; }
  void fault(const std::string& k, u64 n = 1) { if (n) { st.faults[k] += n; nontrivial++; } }
  void probe(const std::string& k, u64 n = 1) { if (n) st.probes[k] += n; }
  void step(u64 dt = 1) { st.steps++; st.simtime += dt; }
  [[noreturn]] void fail(const std::string& cls, const std::string& msg) { throw Violation{cls, msg}; }
  void check(bool ok, const char* cls, const std::string& msg) { if (!ok) fail(cls, msg); }
};

struct Tier { bool thorough = false; u64 index = 0; };

struct Scenario {
  const char* id;
  void (*gen)(Rng&, Plan&, const Tier&);
  void (*run)(const Plan&, Ctx&);
  std::vector<Plan> (*fixed)(const Tier&);         // plans always executed first (may be null)
  void (*warm)() = nullptr;                        // oracle preparation shared by all runs; must not touch the library
};
extern Scenario scenario;                          // defined by exactly one scenario translation unit

// The caller's memory: a copy of the input that ends exactly where its block ends and starts at an address whose low four bits
// follow from the content, so every alignment is met and a shrunk plan keeps the placement. Not operator new: the allocation
// seam does not see it.
struct Placed {
  u8* raw; u8* p; size_t n;
  explicit Placed(std::span<const u8> d) : n(d.size()) { u64 h = d.size(); for (size_t i = 0; i < std::min<size_t>(d.size(), 16); i++) h = mix(h, d[i]); size_t off = h % 3 ? mix(h, 77) % 16 : 0; raw = (u8*)malloc(n + off); p = raw + off; if (n) memcpy(p, d.data(), n); }
  Placed(const Placed&) = delete; Placed& operator=(const Placed&) = delete; ~Placed() { free(raw); }
  std::span<const u8> s() const { return {p, n}; } std::span<u8> m() { return {p, n}; } operator std::span<const u8>() const { return {p, n}; }
  bool same(std::span<const u8> d) const { return d.size() == n && (!n || !memcmp(p, d.data(), n)); }
};
// an input the caller still owns: the call must leave it alone
struct Given : Placed { std::span<const u8> was; explicit Given(std::span<const u8> d) : Placed(d), was(d) {} void ok() const { if (!same(was)) throw Violation{"input-modified", "a call changed the data it was given to read (" + std::to_string(n) + " bytes)"}; } };

std::string hex(std::span<const u8> b, size_t max = 48);
std::string firstDiff(std::span<const u8> a, std::span<const u8> b);

// ---- allocation seam -------------------------------------------------------------------------------------------
namespace alloc {
  void fillPattern(u8 b);                          // contents of fresh memory
  void arm(u64 failAt, u64 count = 1);             // fail the failAt-th (0 = first) allocation from now, count times
  u64 disarm();                                    // returns the number of allocations that were made to fail
  u64 seen();                                      // allocations since arm()
  int64_t live();                                  // outstanding blocks (operator new - operator delete)
  u64 requested();                                 // bytes requested so far, by anyone
  struct Region { Region(); ~Region(); };          // only allocations inside a Region are counted and failed
}
// ---- entropy seam ----------------------------------------------------------------------------------------------
struct EntropyEvent { int kind; u64 arg; };        // 0 normal, 1 short(arg bytes), 2 EINTR, 3 error errno=arg
namespace entropy {
  // The source: called with a destination; must fill it. Null restores the real system call.
  using Source = std::function<void(u8*, size_t)>;
  void install(Source s);
  void script(std::function<EntropyEvent(u64 callIndex, size_t want)> f);
  u64 calls(); u64 issued();
  void reset();
}
// ---- file seam -------------------------------------------------------------------------------------------------
struct ReadFault { u64 at; int kind; u64 arg; };   // on the at-th read call: 1 short(arg), 2 EINTR, 3 error(arg), 4 early EOF
namespace files {
  struct Script {
    bool active = false;
    std::string path;                              // path that is virtualised
    std::string content;                           // bytes that reads deliver
    u64 statSize = 0; bool haveStatSize = false;   // size reported by stat (defaults to content.size())
    int openErr = 0, statErr = 0;
    std::vector<ReadFault> faults;
    u64 chunk = 0;                                 // maximum bytes per read, 0 = unlimited
    std::function<void(u64 readIndex)> onRead;     // scheduling point
    std::function<void(u64 openIndex)> onOpen;     // called before the file is opened; may change the script
    u64 opens = 0, reads = 0, stats = 0, fired = 0, eio = 0, eof = 0;
  };
  extern Script script;
}
// ---- threads ---------------------------------------------------------------------------------------------------
namespace sched {
  struct Config { u64 seed = 0; u64 edgeDen = 0; u64 hotNum = 0, hotDen = 1; u64 globDen = 0; std::vector<Op> explicitSwitches; bool replay = false; u64 maxSwitches = 2000; };
  // Runs the bodies as threads, exactly one at a time; every choice comes from the config. Returns false on deadlock.
  bool run(std::vector<std::function<void()>> bodies, const Config& c, Ctx& ctx);
  void point();                                    // explicit preemption point
  int self();                                      // -1 outside simulated threads
  u64 switches();
  bool quiet();
  struct Quiet { bool was; Quiet(); ~Quiet(); };  // harness bookkeeping: no preemption inside
}
// fork a child, run f in it, collect the bytes it returns. Returns false if it died; how receives the reason.
bool inChild(const std::function<std::string()>& f, std::string& out, std::string& how, unsigned cpuSeconds = 60);
} // namespace sim
