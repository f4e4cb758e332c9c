// C07: key stream uniqueness. All data is zero, so every output block is key stream; no 16-byte block may appear twice in a
// session. Allocation failures interrupt calls; whatever such a call exposed counts, and the session carries on.
#include "records.h"
#include <caligo/chacha20.h>
#include <unordered_set>
using namespace sim; using namespace rec;
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 kind = r.below(3); u64 ivl = r.chance(1, 2) ? 12 : r.chance(1, 4) ? 8 : r.range(13, 40); if (r.chance(1, 3)) p.push_back(Op("poison", {{"b", r.below(256)}}));
  p.push_back(Op("sess", {{"kind", kind}, {"big", r.below(2)}, {"key", dataSeed(r)}, {"iv", dataSeed(r)}, {"ivlen", ivl}, {"wrap", r.chance(1, 3) ? r.range(1, 30) : 0}, {"wk", r.chance(1, 2) ? 32 : r.range(8, 31)}}));
  u64 ops = r.range(4, 60); bool oom = r.chance(1, 2);
  for (u64 i = 0; i < ops; i++) { size_t l = r.chance(1, 3) ? recLen(r) : 16 * r.range(1, 12);
    if (r.chance(1, 12)) p.push_back(Op("jump", {{"n", jumpTo(r)}}));
    else p.push_back(Op(r.chance(1, 5) ? "dec" : "enc", {{"len", l}, {"aad", r.chance(1, 2) ? 0 : r.below(40)}, {"oom", oom && r.chance(1, 3) ? 1 + r.below(4) : 0}})); }
}
static std::vector<Plan> fixed(const Tier& t) {
  std::vector<Plan> v; u64 n = t.thorough ? 2500000 : 140000;
  for (u64 kind : {0, 1, 2}) for (u64 big : {0, 1}) v.push_back({Op("sess", {{"kind", kind}, {"big", big}, {"key", 55}, {"iv", 66}, {"ivlen", 12}}), Op("many", {{"n", n}})});
  for (u64 ivl : {8, 16, 33}) v.push_back({Op("sess", {{"kind", 0}, {"big", 0}, {"key", 55}, {"iv", 67}, {"ivlen", ivl}}), Op("many", {{"n", n}})});
  for (u64 kind : {0, 1, 2}) v.push_back({Op("sess", {{"kind", kind}, {"big", 0}, {"key", 56}, {"iv", 66}, {"ivlen", 12}}), Op("enc", {{"len", (u64)(t.thorough ? 257 : kind == 2 ? 18 : 70) << 20}}), Op("enc", {{"len", 3 << 20}})});
  // one record longer than 2^25 blocks: carries out of each of the lower three counter bytes, twice
  v.push_back({Op("sess", {{"kind", 0}, {"big", 0}, {"key", 57}, {"iv", 66}, {"ivlen", 12}}), Op("enc", {{"len", 520ULL << 20}})});
  v.push_back({Op("sess", {{"kind", 1}, {"big", 1}, {"key", 57}, {"iv", 66}, {"ivlen", 16}, {"wrap", 9}, {"wk", 24}}), Op("enc", {{"len", 520ULL << 20}})});
  return v;
}
struct Seen { std::unordered_set<std::string> small; std::vector<std::pair<u64, u64>> big; };
static void run(const Plan& plan, Ctx& c) {
  Gcm g; Ctr t; std::unique_ptr<ChaCha20> ch; u64 kind = 9; Bytes key, iv; bool canJump = false; u64 calls = 0;
  std::vector<std::pair<u64, u64>> blocks;   // 16-byte blocks of key stream exposed so far
  auto expose = [&](std::span<const u8> d) { if (d.size() > 1 << 20) blocks.reserve(blocks.size() + d.size() / 16); for (size_t i = 0; i + 16 <= d.size(); i += 16) { u64 a, b; memcpy(&a, &d[i], 8); memcpy(&b, &d[i + 8], 8); blocks.push_back({a, b}); } };
  for (auto& op : plan) {
    c.step(); u64 k = 0; for (char q : op.k) k = k * 31 + q; c.shp(k * 977 + op("oom") * 31 + op("kind") * 7 + std::min<u64>(op("len"), 200));
    if (op.k == "poison") { alloc::fillPattern((u8)op("b")); continue; }
    if (op.k == "sess") { if (kind != 9) continue; kind = op("kind") % 3; bool big = op("big"); key = data(op("key") | 5, kind == 2 || big ? 32 : 16); size_t ivl = op("ivlen", 12); if (ivl != 8 && ivl < 12) ivl = 12; iv = data(op("iv"), kind == 1 ? 16 : kind == 2 ? 12 : ivl);
      if (kind == 1 && op("wrap")) { u32 low = (u32)(1ULL << (op("wk", 32) & 63)) - (u32)op("wrap"); for (int i = 0; i < 4; i++) iv[12 + i] = low >> (24 - 8 * i); c.probe("counter block wraps"); }
      if (kind == 0 && op("wrap") && ivl > 12) { Bytes j = data(op("iv"), 16); u32 low = (u32)(1ULL << (op("wk", 32) & 63)) - (u32)op("wrap"); for (int i = 0; i < 4; i++) j[12 + i] = low >> (24 - 8 * i); iv = oracle::gcmIvFor(key, j); c.probe("counter block wraps"); }
      if (kind == 0) { g = Gcm(key, iv); canJump = gcmCanJump(key); } else if (kind == 1) { t = Ctr(key, iv, big); canJump = ctrCanJump(key); } else ch = std::make_unique<ChaCha20>(key, iv); continue; }
    if (kind == 9) continue;
    auto call = [&](bool dec, size_t n, size_t aadn, u64 oom) {
      if (calls >= ~0ULL) return;   // record numbers are used up: a session ends here
      Bytes buf(n), aad(aadn, 3); if (kind == 2) n = buf.size();
      try {
        alloc::Region* R = oom ? new alloc::Region : nullptr; if (oom) alloc::arm(oom - 1); struct Off { alloc::Region* r; ~Off() { alloc::disarm(); delete r; } } off{R};
        if (kind == 0) { if (dec) { auto [pt, ok] = g.dec(buf, aad, {}); alloc::disarm(); expose(pt); } else { auto [ct, tag] = g.enc(buf, aad); alloc::disarm(); expose(ct); if (n == 0 && aadn == 0) expose(tag); } }
        else if (kind == 1) { if (dec) t.dec(buf); else t.enc(buf); alloc::disarm(); expose(buf); }
        else { if (dec) ch->Decrypt(buf); else ch->Encrypt(buf); alloc::disarm(); expose(buf); }
      } catch (const std::bad_alloc&) { c.fault("allocation failure inside a call"); Bytes full; for (size_t i = 0; i + 16 <= buf.size(); i += 16) if (std::any_of(&buf[i], &buf[i] + 16, [](u8 v) { return v != 0; })) full.insert(full.end(), &buf[i], &buf[i] + 16); expose(full); }
      calls++; };
    if (op.k == "jump") { if (!canJump || op("n") <= calls) continue; if (kind == 0) g.counter(op("n")); else if (kind == 1) t.counter(op("n")); calls = op("n"); c.fault("record number fast-forward"); }
    else if (op.k == "enc" || op.k == "dec") { size_t n = op("len"); if (kind == 2) n = (n + 15) / 16 * 16; call(op.k == "dec", n, op("aad"), op("oom")); c.fault("record boundary"); }
    else if (op.k == "many") { for (u64 i = 0; i < op("n"); i++) call(false, 16 + 16 * (i % 3), 0, 0); c.probe("more than 65536 records"); c.fault("long session"); }
  }
  size_t total = blocks.size(); for (auto& b : blocks) if (b.first == 0 && b.second == 0) c.fail("key-stream-zero", "a block of data was left unencrypted");
  std::vector<std::pair<u64, u64>> sorted = blocks; std::sort(sorted.begin(), sorted.end()); auto it = std::adjacent_find(sorted.begin(), sorted.end());
  if (it != sorted.end()) { size_t a = std::find(blocks.begin(), blocks.end(), *it) - blocks.begin(), b = std::find(blocks.begin() + a + 1, blocks.end(), *it) - blocks.begin(); static const char* nm[] = {"AES-GCM", "AES-CTR", "ChaCha20"};
    c.fail("key-stream-reused", std::string(nm[kind % 3]) + ": key stream blocks " + std::to_string(a) + " and " + std::to_string(b) + " of " + std::to_string(total) + " are equal"); }
  c.note(total); for (size_t i = 0; i < std::min<size_t>(total, 4096); i++) c.note(blocks[i].first); c.probe("key stream blocks compared", total);
}
sim::Scenario sim::scenario{"C07", gen, run, fixed};
