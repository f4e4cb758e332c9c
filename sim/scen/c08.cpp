// C08: AES-CTR peers exchanging in-order messages.
#include "records.h"
using namespace sim; using namespace rec;
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 n = r.range(1, 3); if (r.chance(1, 3)) p.push_back(Op("poison", {{"b", r.below(256)}}));
  for (u64 i = 0; i < n; i++) { p.push_back(Op("sess", {{"s", i}, {"key", dataSeed(r)}, {"big", r.below(2)}, {"iv", dataSeed(r)}, {"wk", r.chance(1, 2) ? 32 : r.range(8, 31)}, {"wrap", r.chance(1, 3) ? r.range(1, 40) : r.chance(1, 6) ? r.pick(std::vector<u64>{255, 256, 65535, 65536, 257, 0xFFFFFF}) : 0}})); if (r.chance(1, 3)) p.push_back(Op("jump", {{"s", i}, {"n", jumpTo(r)}})); }
  u64 ops = r.range(2, 50);
  for (u64 i = 0; i < ops; i++) { switch (r.below(12)) {
    case 0: p.push_back(Op("snap", {{"s", r.below(n)}})); break;
    case 1: p.push_back(Op("bad", {{"key", r.chance(1, 2) ? 16 * r.range(1, 2) : r.below(70)}, {"iv", r.chance(1, 2) ? 16 : r.below(40)}, {"big", r.below(2)}})); break;
    case 2: p.push_back(Op("rev", {{"s", r.below(n)}, {"len", recLen(r)}, {"d", dataSeed(r)}})); break;
    default: p.push_back(Op("msg", {{"s", r.below(n)}, {"len", recLen(r)}, {"d", dataSeed(r)}, {"off", r.below(17)}})); } }
}
static std::vector<Plan> fixed(const Tier& t) {
  std::vector<Plan> v;
  for (u64 big : {0, 1}) { v.push_back({Op("sess", {{"s", 0}, {"key", 5 + big}, {"big", big}, {"iv", 77}}), Op("many", {{"s", 0}, {"n", t.thorough ? 4000000 : 140000}})});
    v.push_back({Op("sess", {{"s", 0}, {"key", 7}, {"big", big}, {"iv", 77}}), Op("msg", {{"s", 0}, {"len", 2200000}, {"d", 9}}), Op("msg", {{"s", 0}, {"len", 22}, {"d", 9}})});
    v.push_back({Op("sess", {{"s", 0}, {"key", 7}, {"big", big}, {"iv", 79}}), Op("msg", {{"s", 0}, {"len", (256 << 20) + 50}, {"d", 9}}), Op("msg", {{"s", 0}, {"len", 22}, {"d", 9}})}); }
  return v;
}
static void run(const Plan& plan, Ctx& c) {
  struct S { Ctr tx, rx; Bytes key, iv; u64 n = 0; }; std::map<u64, S> s;
  auto one = [&](S& x, const Bytes& d, size_t off, bool rev) {
    size_t n = d.size(); auto buf = std::make_unique<u8[]>(n + off + 4); memset(buf.get(), 0x5A, n + off + 4); memcpy(buf.get() + off, d.data(), n); std::span<u8> w(buf.get() + off, n);
    if (rev) x.rx.enc(w); else x.tx.enc(w); Bytes ks = ctrStream(x.key, x.iv, x.n, n), want(n); for (size_t i = 0; i < n; i++) want[i] = d[i] ^ ks[i];
    std::string at = "message " + std::to_string(x.n) + " length " + std::to_string(n);
    if (n >= 16) c.check(memcmp(w.data(), d.data(), n), "left-unencrypted", at);
    c.check(!memcmp(w.data(), want.data(), n), "not-aes-ctr", at + ": " + firstDiff(w, want)); if (n < 100000) c.note(std::span<const u8>(w));
    if (rev) x.tx.dec(w); else x.rx.dec(w); c.check(!memcmp(w.data(), d.data(), n), "round-trip", at);
    for (size_t i = 0; i < off; i++) c.check(buf[i] == 0x5A, "wrote-outside", at); for (size_t i = 0; i < 4; i++) c.check(buf[off + n + i] == 0x5A, "wrote-outside", at);
    x.n++; c.fault("message boundary"); };
  for (auto& op : plan) {
    c.step(); u64 k = 0; for (char ch : op.k) k = k * 31 + ch; c.shp(k * 977 + op("s") * 31 + std::min<u64>(op("len"), 200));
    if (op.k == "poison") { alloc::fillPattern((u8)op("b")); continue; }
    if (op.k == "bad") { bool big = op("big"); Bytes key = data(5, op("key")), iv = data(6, op("iv")); bool should = key.size() != (big ? 32u : 16u) || iv.size() != 16, threw = false; try { Ctr x(key, iv, big); } catch (const std::exception&) { threw = true; }
      c.check(threw == should, "size-check", "key " + std::to_string(key.size()) + " iv " + std::to_string(iv.size()) + " AES-" + (big ? "256" : "128")); if (should) c.fault("wrong size"); continue; }
    if (op.k == "sess") { S x; x.key = data(op("key"), op("big") ? 32 : 16); x.iv = data(op("iv"), 16); if (op("wrap")) { u32 low = (u32)(1ULL << (op("wk", 32) & 63)) - (u32)op("wrap"); for (int i = 0; i < 4; i++) x.iv[12 + i] = low >> (24 - 8 * i); c.probe("counter block wraps"); } x.tx = Ctr(x.key, x.iv, op("big")); x.rx = Ctr(x.key, x.iv, op("big")); s[op("s")] = std::move(x); continue; }
    auto it = s.find(op("s")); if (it == s.end()) continue; S& x = it->second;
    if (op.k == "jump") { if (!ctrCanJump(x.key) || op("n") < x.n) continue; x.tx.counter(op("n")); x.rx.counter(op("n")); x.n = op("n"); c.fault("message number fast-forward"); }
    else if (op.k == "snap") { x.tx = x.tx.copy(); x.rx = x.rx.copy(); c.fault("session objects copied"); }
    else if (op.k == "msg" || op.k == "rev") one(x, data(op("d"), op("len")), op("off"), op.k == "rev");
    else if (op.k == "many") { for (u64 i = 0; i < op("n"); i++) { u8 m[40]; memset(m, 7, 40); memcpy(m, &i, 8); u8 o[40]; memcpy(o, m, 40); size_t l = 17 + i % 20; x.tx.enc({m, l}); if (i % 64 == 0) { Bytes ks = ctrStream(x.key, x.iv, x.n, l); for (size_t q = 0; q < l; q++) c.check(m[q] == (o[q] ^ ks[q]), "not-aes-ctr", "message " + std::to_string(x.n)); } x.rx.dec({m, l}); c.check(!memcmp(m, o, 40), "round-trip", "message " + std::to_string(x.n)); x.n++; } c.probe("more than 65536 messages"); }
  }
}
sim::Scenario sim::scenario{"C08", gen, run, fixed};
