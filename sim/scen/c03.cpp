// C03: random draws. The same history of draws, faults, forks and restarts is executed under 64 different entropy streams; every bit
// drawn is then a vector of 64 bits. A bit that does not depend on entropy is constant; two bits that share entropy are equal (or
// complementary). Both are violations. Entropy consumed is accounted per draw, memory around the buffers is guarded.
#include "sim.h"
#include <caligo/random.h>
#include <caligo/bignum.h>
#include <caligo/x25519.h>
#include <cerrno>
using namespace sim;
static const int K = 64;
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 n = r.range(2, 14); bool faults = r.chance(2, 3);
  for (u64 i = 0; i < n; i++) {
    if (r.chance(1, 8)) { p.push_back(Op("restart")); continue; }
    u64 kind = r.below(7); Op o("draw", {{"kind", kind}, {"n", r.chance(1, 12) ? 0 : r.chance(1, 6) ? r.range(1, 200) : r.range(1, 21)}, {"fill", r.below(256)}, {"fork", r.chance(1, 7)}, {"off", r.below(16)}});
    if (faults && r.chance(1, 2)) { u64 fk = r.range(1, 3); o.a.push_back({"fk", fk}); o.a.push_back({"fa", r.chance(1, 2) ? r.below(3) : r.below(20)}); o.a.push_back({"fn", fk == 3 ? (r.chance(1, 2) ? 1 : 1000000000000ULL) : r.chance(1, 8) ? r.range(7, r.chance(1, 6) ? 5000 : 300) : r.range(1, 6)}); o.a.push_back({"fx", fk == 3 ? r.pick(std::vector<u64>{EIO, EAGAIN, ENOSYS, EFAULT, EPERM}) : r.range(1, 7)}); }
    p.push_back(o);
  }
}
static std::vector<Plan> fixed(const Tier&) { // every element width at every small length, alone and twice
  std::vector<Plan> v; for (u64 k = 0; k < 4; k++) for (u64 n = 0; n < 20; n++) v.push_back({Op("draw", {{"kind", k}, {"n", n}, {"fill", 0xAA}}), Op("draw", {{"kind", k}, {"n", n}, {"fill", 0}})});
  for (u64 k = 0; k < 4; k++) { v.push_back({Op("draw", {{"kind", k}, {"n", (u64)(k == 0 ? 65600 : 70000 / (1 << k) * 2 + 1)}, {"fill", 0xAA}}), Op("draw", {{"kind", k}, {"n", 5}, {"fill", 0}})}); for (u64 n : {255, 256, 257, 513, 1025, 4099}) v.push_back({Op("draw", {{"kind", k}, {"n", n}, {"fill", 0xAA}}), Op("draw", {{"kind", k}, {"n", 5}, {"fill", 0}})}); }
  for (u64 k = 4; k < 7; k++) for (u64 fx = 0; fx < 4; fx++) v.push_back({Op("draw", {{"kind", k}, {"n", fx}}), Op("restart"), Op("draw", {{"kind", k}, {"n", fx}}), Op("draw", {{"kind", k}, {"n", fx}, {"fork", 1}})});
  for (u64 k = 0; k < 7; k++) for (u64 fa = 0; fa < 3; fa++) { v.push_back({Op("draw", {{"kind", k}, {"n", 9}}), Op("draw", {{"kind", k}, {"n", 9}, {"fk", 3}, {"fa", fa}, {"fn", 1000000000000ULL}, {"fx", EIO}}), Op("draw", {{"kind", k}, {"n", 9}})}); for (u64 fx = 1; fx < 8; fx++) v.push_back({Op("draw", {{"kind", k}, {"n", 9}, {"fk", 1}, {"fa", fa}, {"fn", 3}, {"fx", fx}}), Op("draw", {{"kind", k}, {"n", 9}, {"fk", 2}, {"fa", fa}, {"fn", 3}})}); }
  return v;
}
// one draw: 'T' if it threw, else 'D' + length + mask of bits to judge + bytes
template <class T> static std::string span(u64 n, u8 fill, u64 off) { const size_t G = 32; Bytes mem((n + 16) * sizeof(T) + 2 * G, fill); u8* at = mem.data() + G + (off * sizeof(T)) % (16 * sizeof(T)); std::span<T> s((T*)at, n); bool thrown = false; try { Caligo::generate_random(s); } catch (const std::exception&) { thrown = true; }
  for (size_t i = 0; i < mem.size(); i++) if ((&mem[i] < at || &mem[i] >= at + n * sizeof(T)) && mem[i] != fill) return "O"; if (thrown) return "T"; return "D" + std::string(n * sizeof(T), '\xff') + std::string((char*)at, n * sizeof(T)); }
template <size_t N> static std::string number() { try { auto v = Caligo::bignum<N>::random(); Bytes b = v.as_bytes(); b.resize(N / 8); return "D" + std::string(b.size(), '\xff') + std::string((char*)b.data(), b.size()); } catch (const std::exception&) { return "T"; } }
static std::string draw(const Op& o) {
  u64 n = o("n"); u8 f = (u8)o("fill"); n = std::min<u64>(n, 70000);
  switch (o("kind")) { case 0: return span<uint8_t>(n, f, o("off")); case 1: return span<uint16_t>(n, f, o("off")); case 2: return span<uint32_t>(n, f, o("off")); case 3: return span<uint64_t>(n, f, o("off"));
    case 4: switch (n % 5) { case 0: return number<32>(); case 1: return number<64>(); case 2: return number<96>(); case 3: return number<256>(); default: return number<544>(); }
    case 5: return number<1024>();
    default: try { auto k = Caligo::ec_value::random_private_key(); Bytes b = k.as_bytes(); b.resize(32); std::string m(32, '\xff'); m[0] = (char)0xF8; m[31] = 0x3F; return "D" + m + std::string((char*)b.data(), 32); } catch (const std::exception&) { return "T"; } } }
struct Shot { std::string res; u64 issued = 0, faults = 0, calls = 0, failures = 0; };
static void put(std::string& s, const Shot& x) { u64 h[5] = {x.res.size(), x.issued, x.faults, x.calls, x.failures}; s.append((char*)h, sizeof h); s += x.res; }
static std::vector<Shot> get(const std::string& s) { std::vector<Shot> v; size_t p = 0; while (p + 40 <= s.size()) { u64 h[5]; memcpy(h, &s[p], 40); v.push_back({s.substr(p + 40, h[0]), h[1], h[2], h[3], h[4]}); p += 40 + h[0]; } return v; }
static void stream(u64 seed) { entropy::reset(); auto pos = std::make_shared<u64>(0); entropy::install([seed, pos](u8* p, size_t n) { for (size_t i = 0; i < n; i++, ++*pos) p[i] = (u8)(mix(seed, *pos) >> 24); }); }
static Shot shot(const Op& o) { u64 fired = 0, base = entropy::calls(), was = entropy::issued(), fk = o("fk"), fa = o("fa"), fn = o("fn"), fx = o("fx", 1);
  entropy::script([&fired, base, fk, fa, fn, fx](u64 call, size_t) -> EntropyEvent { u64 k = call - base; if (fk && k >= fa && k - fa < fn) { fired++; return {(int)fk, fx}; } return {0, 0}; });
  Shot s; s.res = draw(o); s.issued = entropy::issued() - was; s.faults = fired; s.failures = fk == 3 ? fired : 0; s.calls = entropy::calls() - base; entropy::script(nullptr); return s; }
static void run(const Plan& plan, Ctx& c) {
  std::vector<std::vector<Op>> lives(1); for (auto& op : plan) { c.step(); c.shp(op("kind") * 7 + op("n") * 31 + op("fk") * 1009 + op("fa") * 5 + op("fork") * 3 + (op.k == "restart")); if (op.k == "restart") { lives.push_back({}); c.fault("restart"); } else if (op.k == "draw") { lives.back().push_back(op); if (op("fork")) c.fault("fork before a draw"); } }
  std::vector<Shot> ref; std::vector<std::vector<u64>> vec; std::vector<u64> judged; size_t total = 0;
  for (int s = 0; s < K; s++) {
    std::vector<Shot> all;
    for (size_t l = 0; l < lives.size(); l++) { std::string out, how; u64 seed = mix(s * 1000003 + l, 0xE);
      bool ok = inChild([&] { stream(seed); std::string r; u64 fk = 0; for (auto& o : lives[l]) { if (o("fork")) { std::string sub, h; u64 cs = mix(seed, ++fk); bool okc = inChild([&] { auto f = [cs, pos = (u64)0](u8* p, size_t n) mutable { for (size_t i = 0; i < n; i++) p[i] = (u8)(mix(cs, pos++) >> 24); }; entropy::install(f); std::string q; put(q, shot(o)); return q; }, sub, h); if (!okc) { Shot x; x.res = "C" + h; put(r, x); } else r += sub; } put(r, shot(o)); } return r; }, out, how);
      if (!ok) c.fail("crash:" + how, "a draw ended the process: " + how); for (auto& x : get(out)) all.push_back(x); }
    size_t bit = 0;
    for (size_t i = 0; i < all.size(); i++) { auto& x = all[i]; c.check(x.res[0] != 'O', "written-outside", "draw " + std::to_string(i) + " changed memory outside its buffer"); c.check(x.res[0] != 'C', "crash:draw", x.res);
      if (s == 0) { ref.push_back(x); if (x.faults) c.fault(x.res[0] == 'T' ? "entropy failure" : "short or interrupted entropy read", x.faults); if (x.res[0] == 'T') { c.check(x.failures > 0, "draw-failed", "draw " + std::to_string(i) + (x.faults ? " failed although the source was only interrupted or slow" : " failed although the source delivered")); c.probe("failure reported"); } } else c.check(ref[i].res[0] == x.res[0] && ref[i].res.size() == x.res.size(), "inconsistent-draw", "draw " + std::to_string(i));
      if (x.res[0] != 'D') continue; size_t n = (x.res.size() - 1) / 2; c.check(x.issued >= n, "entropy-not-drawn", "draw " + std::to_string(i) + " of " + std::to_string(n) + " bytes took only " + std::to_string(x.issued) + " bytes of entropy from the system"); if (s == 0) total += n;
      for (size_t b = 0; b < n; b++) for (int k = 0; k < 8; k++) if ((u8)x.res[1 + b] >> k & 1) { if (s == 0) { judged.push_back(i * 1000000ULL + b); vec.push_back({0}); } vec[bit++][0] |= (u64)((u8)x.res[1 + n + b] >> k & 1) << s; } }
  }
  auto where = [&](size_t i) { return "draw " + std::to_string(judged[i] / 1000000) + " byte " + std::to_string(judged[i] % 1000000); };
  std::map<u64, size_t> seen;
  for (size_t i = 0; i < vec.size(); i++) { u64 v = vec[i][0]; c.note(v); c.check(v != 0 && v != ~0ULL, "not-random", where(i) + " does not depend on the entropy source"); u64 key = v & 1 ? ~v : v; auto [it, fresh] = seen.insert({key, i}); if (!fresh) c.fail("entropy-shared", where(it->second) + " and " + where(i) + " share entropy"); }
  c.probe("bytes drawn", total); if (lives.size() > 1) c.probe("draws compared across a restart"); c.fault("entropy streams", K);
}
sim::Scenario sim::scenario{"C03", gen, run, fixed};
