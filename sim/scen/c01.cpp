// C01: each thread's results under a simulated schedule must equal the results of the same thread running alone in a fresh process.
#include "ops.h"
using namespace sim;
static thread_local u64 streamId = 0; static u64 pos[8];
static void install() { for (auto& p : pos) p = 0; entropy::reset(); entropy::install([](u8* p, size_t n) { sched::Quiet q; for (size_t i = 0; i < n; i++) p[i] = (u8)(mix(streamId + 77, pos[streamId]++) >> 24); }); entropy::script([](u64, size_t) -> EntropyEvent { sched::point(); return {0, 0}; }); }
// rough number of memory accesses of an operation, so that preemptions spread over all of it
static u64 heavy(u64 k) { switch (k) { case ops::X: case ops::RSA_: return 3000; case ops::TRUST: case ops::PRIVKEY: return 5000; case ops::VERIFY: return 300; case ops::CERT: case ops::BUNDLEPARSE: return 1000; default: return 1; } }
static void gen(Rng& r, Plan& p, const Tier&) {
  bool same = r.chance(3, 4); u64 k = r.below(ops::KINDS), a = r.below(110); if (same && heavy(k) >= 1000 && r.chance(1, 2)) k = r.below(ops::KINDS);
  u64 t = r.range(2, 4), edge = r.pick(std::vector<u64>{30, 200, 1000, 8000}); if (same && r.chance(2, 3)) edge *= heavy(k); p.push_back(Op("sched", {{"seed", 1 + (r.next() >> 20)}, {"edge", edge}, {"hot", r.below(4)}, {"glob", r.pick(std::vector<u64>{0, 2, 10, 100})}}));
  u64 n = r.range(t, t + 3), rep = r.pick(std::vector<u64>{1, 1, 2, 3}), seed = r.next() >> 20; bool alike = same && r.chance(1, 4);
  for (u64 i = 0; i < n; i++) { u64 kk = same ? k : r.below(ops::KINDS); if (!same && heavy(kk) >= 1000 && r.chance(1, 2)) kk = r.below(6); size_t len = kk == ops::BUNDLEPARSE ? 0 : r.chance(1, 3) ? r.below(20) : r.below(400); p.push_back(Op("do", {{"t", i < t ? i : r.below(t)}, {"kind", kk}, {"alg", same && r.chance(3, 4) ? a : r.below(110)}, {"seed", alike ? seed : r.next() >> 20}, {"n", len}, {"rep", rep}})); }
}
static std::vector<Plan> fixed(const Tier& t) { std::vector<Plan> v; for (u64 rep = 0; rep < (t.thorough ? 12 : 3); rep++) for (u64 k = 0; k < ops::KINDS; k++) for (u64 a = 0; a < (k < 2 ? 11 : k == ops::KDF ? 3 : k == ops::RSA_ ? 3 : k == ops::REFUSED ? 9 : 1); a++) { Plan p{Op("sched", {{"seed", 1 + k * 131 + a + rep * 7777}, {"edge", heavy(k) * (rep % 3 == 0 ? 30 : rep % 3 == 1 ? 300 : 3000)}, {"hot", 3}, {"glob", 2}})}; for (u64 i = 0; i < 2 + rep % 3; i++) p.push_back(Op("do", {{"t", i}, {"kind", k}, {"alg", k == ops::RSA_ && a == 2 ? 8 : a}, {"seed", 1000 + i + rep}, {"n", 150 + i}, {"rep", 1 + (rep + a) % 2}})); v.push_back(p); } return v; }
static void run(const Plan& plan, Ctx& c) {
  sched::Config cfg; std::map<u64, std::vector<Op>> by;
  for (auto& op : plan) if (op.k == "sched") { cfg.seed = op("seed"); cfg.edgeDen = op("edge"); cfg.hotNum = op("hot"); cfg.hotDen = 4; cfg.globDen = op("glob"); } else if (op.k == "switch") { cfg.replay = true; cfg.explicitSwitches.push_back(op); } else if (op.k == "do") by[op("t") % 4].push_back(op);
  if (by.size() < 1) return; if (!cfg.seed) cfg.replay = true;
  bool store = false, keys = false; for (auto& [t, v] : by) for (auto& o : v) { u64 k = o("kind") % ops::KINDS; store |= k == ops::TRUST || k == ops::STOREGET; keys |= k == ops::VERIFY; }
  std::vector<std::vector<ops::Fn>> fn; std::vector<std::vector<Op>> what; ops::Shared sh;
  auto prep = [&] { if (store || keys) ops::setup(sh, 3); for (auto& [t, v] : by) { fn.push_back({}); what.push_back(v); for (auto& o : v) { auto f = ops::prepare(o, &sh); u64 n = std::max<u64>(1, o("rep") % 4); fn.back().push_back(!f || n == 1 ? f : ops::Fn([f, n] { Bytes all; for (u64 i = 0; i < n; i++) { Bytes b = f(); ops::put(all, b); } return all; })); } } };
  // inputs are made by reference code before anything runs; only what needs the store or shared keys touches the library first
  bool touched = store || keys; if (!touched) prep();
  std::vector<std::vector<Bytes>> alone(by.size());
  auto one = [&](size_t w, size_t i) -> Bytes { if (!fn[w][i]) return {}; Bytes b; try { b = fn[w][i](); } catch (const std::exception& e) { b = Bytes(e.what(), e.what() + strlen(e.what())); b.push_back('!'); } return b; };
  for (size_t w = 0; w < by.size(); w++) { std::string out, how; bool ok = inChild([&] { if (touched) prep(); install(); streamId = w; std::string s; for (size_t i = 0; i < fn[w].size(); i++) { Bytes b = one(w, i); u64 n = b.size(); s.append((char*)&n, 8); s.append((char*)b.data(), n); } return s; }, out, how); if (!ok) c.fail("crash:alone-" + how, "running alone ended with " + how); for (size_t p = 0; p < out.size();) { u64 n; memcpy(&n, &out[p], 8); alone[w].push_back(Bytes(out.begin() + p + 8, out.begin() + p + 8 + n)); p += 8 + n; } }
  if (touched) prep(); install(); std::vector<std::vector<Bytes>> got(by.size()); std::vector<std::function<void()>> bodies;
  for (size_t w = 0; w < by.size(); w++) bodies.push_back([&, w] { streamId = w; for (size_t i = 0; i < fn[w].size(); i++) { Bytes b = one(w, i); sched::Quiet q; got[w].push_back(std::move(b)); } });
  bool ok = sched::run(bodies, cfg, c); entropy::reset(); c.check(ok, "deadlock", "threads working on objects of their own block each other");
  for (size_t w = 0; w < by.size(); w++) for (size_t i = 0; i < got[w].size(); i++) { u64 k = what[w][i]("kind"); c.note(got[w][i]); c.step(); c.check(got[w][i] == alone[w][i], "disturbed", std::string(ops::name(k)) + " in thread " + std::to_string(w) + ", operation " + std::to_string(i) + ", gave another result than alone: " + firstDiff(got[w][i], alone[w][i])); c.probe(ops::name(k)); }
  if (c.st.faults["sched.preemption"] > 3) c.nontrivial++;
}
static void warm() { for (size_t i = 0; i < oracle::rsaCount(); i++) oracle::rsa(i); }
sim::Scenario sim::scenario{"C01", gen, run, fixed, warm};
