// C03, threads: threads draw at the same time under a simulated schedule; no 8 bytes drawn anywhere may appear twice.
#include "sim.h"
#include <caligo/random.h>
#include <caligo/bignum.h>
#include <caligo/x25519.h>
#include <cerrno>
using namespace sim;
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 t = r.range(2, 4); static const u64 den[] = {3, 10, 40, 200}; p.push_back(Op("sched", {{"seed", r.next() >> 20}, {"edge", r.pick(std::vector<u64>{5, 20, 100, 1000})}, {"hot", r.below(4)}, {"glob", r.pick(std::vector<u64>{0, 4, 20})}})); (void)den; p.push_back(Op("stream", {{"seed", r.next() >> 20}}));
  u64 n = r.range(t, 16); for (u64 i = 0; i < n; i++) p.push_back(Op("draw", {{"t", i < t ? i : r.below(t)}, {"kind", r.below(6)}, {"n", r.chance(1, 10) ? r.range(7, 70) : r.range(1, 6)}, {"intr", r.chance(1, 4) ? r.range(1, 3) : 0}}));
  if (r.chance(1, 3)) p.push_back(Op("fail", {{"from", r.below(60)}, {"n", r.range(1, 4)}}));
}
static void run(const Plan& plan, Ctx& c) {
  sched::Config cfg; u64 seed = 1, from = ~0ULL, fn = 0; std::map<u64, std::vector<Op>> by;
  for (auto& op : plan) { if (op.k == "sched") { cfg.seed = op("seed"); cfg.edgeDen = op("edge"); cfg.hotNum = op("hot"); cfg.hotDen = 4; cfg.globDen = op("glob"); } else if (op.k == "switch") { cfg.replay = true; cfg.explicitSwitches.push_back(op); } else if (op.k == "stream") seed = op("seed"); else if (op.k == "draw") by[op("t") % 4].push_back(op); else if (op.k == "fail") { from = op("from"); fn = op("n"); } }
  if (by.empty()) return; if (!cfg.seed) cfg.replay = true;
  u64 pos = 0, fired = 0, intr = 0; entropy::reset(); entropy::install([&](u8* p, size_t n) { sched::Quiet q; for (size_t i = 0; i < n; i++, pos++) p[i] = (u8)(mix(seed, pos) >> 24); });
  std::vector<std::vector<Bytes>> got(4); std::vector<u64> budget(4); u64 thrown = 0, needed = 0;
  entropy::script([&](u64 call, size_t n) -> EntropyEvent { sched::point(); sched::Quiet q; int t = sched::self(); if (call >= from && call - from < fn) { fired++; return {3, EIO}; } if (t >= 0 && budget[t]) { budget[t]--; intr++; return call & 1 ? EntropyEvent{2, 0} : EntropyEvent{1, 3}; } return {0, 0}; });
  std::vector<std::function<void()>> bodies; std::vector<u64> ids; for (auto& [t, v] : by) ids.push_back(t);
  for (size_t w = 0; w < ids.size(); w++) { auto* ops = &by[ids[w]]; bodies.push_back([&, w, ops] { for (auto& o : *ops) { budget[w] = o("intr"); size_t n = o("n"); Bytes b; try {
      switch (o("kind")) { case 0: b.resize(8 * n); Caligo::generate_random(std::span<u8>(b)); break;
        case 1: { std::vector<uint16_t> v(4 * n); Caligo::generate_random(std::span<uint16_t>(v)); b.assign((u8*)v.data(), (u8*)(v.data() + v.size())); break; }
        case 2: { std::vector<uint32_t> v(2 * n); Caligo::generate_random(std::span<uint32_t>(v)); b.assign((u8*)v.data(), (u8*)(v.data() + v.size())); break; }
        case 3: { std::vector<uint64_t> v(n); Caligo::generate_random(std::span<uint64_t>(v)); b.assign((u8*)v.data(), (u8*)(v.data() + v.size())); break; }
        case 4: { auto v = Caligo::bignum<256>::random(); b = v.as_bytes(); b.resize(32); break; }
        default: { auto v = Caligo::ec_value::random_private_key(); b = v.as_bytes(); b.resize(32); b.erase(b.begin(), b.begin() + 8); b.resize(16); } }
      sched::Quiet q; got[w].push_back(b); needed += b.size(); } catch (const std::exception&) { sched::Quiet q; thrown++; } } }); }
  bool ok = sched::run(bodies, cfg, c); entropy::script(nullptr); c.check(ok, "deadlock", "the drawing threads block each other");
  c.check(thrown <= fired, "draw-failed", std::to_string(thrown) + " draws failed, the source failed " + std::to_string(fired) + " times"); c.fault("entropy failure", fired); c.fault("short or interrupted entropy read", intr); c.probe("failure reported", thrown);
  c.check(entropy::issued() >= needed, "entropy-not-drawn", std::to_string(needed) + " bytes drawn from " + std::to_string(entropy::issued()) + " bytes of entropy");
  std::map<u64, std::string> seen; for (size_t w = 0; w < 4; w++) for (size_t d = 0; d < got[w].size(); d++) for (size_t i = 0; i + 8 <= got[w][d].size(); i += 8) { u64 v; memcpy(&v, &got[w][d][i], 8); c.note(v); std::string at = "thread " + std::to_string(w) + " draw " + std::to_string(d) + " word " + std::to_string(i / 8); c.check(v != 0, "not-random", at + " is zero"); auto [it, fresh] = seen.insert({v, at}); if (!fresh) c.fail("entropy-shared", at + " repeats " + it->second); }
  c.probe("threads drawing together", bodies.size()); entropy::reset();
}
sim::Scenario sim::scenario{"C03", gen, run, nullptr};
