// C05: ChaCha20 stream peers. Several stream objects over few keys and nonces, arbitrary segmentation, copies, both directions.
#include "sim.h"
#include "oracle.h"
#include <caligo/chacha20.h>
using namespace sim;
template <class T> static bool jump(T& o, u32 block) { if constexpr (requires { o.state[12] = block; o.GenerateBlock(); }) { o.state[12] = block; o.GenerateBlock(); return true; } else return false; }
static bool canJump(const Bytes& key, const Bytes& nonce) {
  ChaCha20 c(key, nonce); if (!jump(c, 5)) return false; Bytes b(70); c.Encrypt(b); Bytes z(70); return b == oracle::chacha20(key, nonce, 5, z);
}
static size_t len(Rng& r) { switch (r.below(9)) { case 0: return 0; case 1: return 1; case 2: return 63 + r.below(3); case 3: return 64 * r.range(1, 9) - 1 + r.below(3); case 4: return 127 + r.below(3); case 5: return r.below(64); case 6: return r.below(1000); case 7: return r.chance(1, 6) ? r.below(200000) : r.below(300); default: return r.below(130); } }
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 n = r.range(1, 4), keys = r.range(1, 2); if (r.chance(1, 3)) p.push_back(Op("poison", {{"b", r.below(256)}}));
  std::vector<u64> ks; for (u64 i = 0; i < keys; i++) ks.push_back(dataSeed(r)); u64 nonce = dataSeed(r);
  for (u64 i = 0; i < n; i++) p.push_back(Op("new", {{"o", i}, {"key", r.pick(ks)}, {"nonce", r.chance(1, 3) ? dataSeed(r) : nonce}}));
  u64 ops = r.range(2, 60);
  for (u64 i = 0; i < ops; i++) switch (r.below(14)) {
    case 0: p.push_back(Op("copy", {{"o", r.below(n)}, {"to", r.below(n + 1)}})); break;
    case 1: p.push_back(Op("assign", {{"o", r.below(n)}, {"from", r.below(n)}})); break;
    case 2: if (r.chance(1, 2)) p.push_back(Op("jump", {{"o", r.below(n)}, {"block", r.chance(1, 2) ? (1ULL << r.range(6, 31)) - r.below(3) : 0xFFFFFFFFULL - r.range(40, 5000)}})); break;
    case 3: if (r.chance(1, 3)) p.push_back(Op("bad", {{"k", r.chance(1, 2) ? 32 : r.below(70)}, {"n", r.chance(1, 2) ? 12 : r.below(40)}})); break;
    default: p.push_back(Op(r.chance(1, 2) ? "enc" : "dec", {{"o", r.below(n)}, {"len", len(r)}, {"d", dataSeed(r)}, {"off", r.below(17)}}));
  }
}
static std::vector<Plan> fixed(const Tier& t) {
  std::vector<Plan> v; u64 mb = t.thorough ? 1030 : 17;
  v.push_back({Op("new", {{"o", 0}, {"key", 77}, {"nonce", 99}}), Op("stream", {{"o", 0}, {"mb", mb}, {"piece", 65521}}), Op("enc", {{"o", 0}, {"len", 333}, {"d", 9}})});
  v.push_back({Op("new", {{"o", 0}, {"key", 78}, {"nonce", 93}}), Op("stream", {{"o", 0}, {"mb", 5}, {"piece", 7}}), Op("enc", {{"o", 0}, {"len", 333}, {"d", 9}})});
  v.push_back({Op("new", {{"o", 0}, {"key", 79}, {"nonce", 91}}), Op("stream", {{"o", 0}, {"mb", 6}, {"piece", 6 << 20}}), Op("dec", {{"o", 0}, {"len", 333}, {"d", 9}})});
  return v;
}
static void run(const Plan& plan, Ctx& c) {
  struct S { std::unique_ptr<ChaCha20> o; Bytes key, nonce; u64 pos = 64; }; std::map<u64, S> s;
  auto check = [&](S& x, const Bytes& before, std::span<const u8> after, const char* what) {
    if (before.empty()) return;
    u64 skip = x.pos % 64; Bytes in(skip); in.insert(in.end(), before.begin(), before.end()); Bytes ref = oracle::chacha20(x.key, x.nonce, (u32)(x.pos / 64), in);
    c.check(!memcmp(ref.data() + skip, after.data(), before.size()), "stream-differs", std::string(what) + " at stream position " + std::to_string(x.pos - 64) + " length " + std::to_string(before.size()) + ": " + firstDiff(after, std::span<const u8>(ref).subspan(skip)));
    x.pos += before.size();
  };
  for (auto& op : plan) {
    c.step(); u64 k = 0; for (char ch : op.k) k = k * 31 + ch; c.shp(k * 977 + op("o") * 31 + std::min<u64>(op("len"), 300));
    if (op.k == "poison") { alloc::fillPattern((u8)op("b")); continue; }
    if (op.k == "bad") { Bytes kk = data(21, op("k")), nn = data(22, op("n")); bool threw = false; try { ChaCha20 x(kk, nn); } catch (const std::exception&) { threw = true; }
      c.check(threw == (kk.size() != 32 || nn.size() != 12), "size-check", "key " + std::to_string(kk.size()) + " nonce " + std::to_string(nn.size())); if (threw) c.probe("wrong size refused"); continue; }
    if (op.k == "new") { S x; x.key = data(op("key"), 32); x.nonce = data(op("nonce"), 12); Given pk(x.key), pn(x.nonce); x.o = std::make_unique<ChaCha20>(pk.s(), pn.s()); pk.ok(); pn.ok(); s[op("o")] = std::move(x); continue; }
    auto it = s.find(op("o")); if (it == s.end()) continue; S& x = it->second;
    if (op.k == "enc" || op.k == "dec") {
      size_t n = op("len"), off = op("off"); if ((x.pos + n) / 64 >= (1ULL << 32)) continue;
      Bytes d = data(op("d"), n); auto buf = std::make_unique<u8[]>(n + off + 8); memset(buf.get(), 0x5A, n + off + 8); memcpy(buf.get() + off, d.data(), n);
      if (op.k == "enc") x.o->Encrypt({buf.get() + off, n}); else x.o->Decrypt({buf.get() + off, n});
      for (size_t i = 0; i < off; i++) c.check(buf[i] == 0x5A, "wrote-outside", "before"); for (size_t i = 0; i < 8; i++) c.check(buf[off + n + i] == 0x5A, "wrote-outside", "after");
      if ((x.pos % 64) + n > 64) c.probe("crossed a block"); if (x.pos >> 22) c.probe("beyond 65536 blocks");
      check(x, d, {buf.get() + off, n}, op.k.c_str()); c.note(std::span<const u8>(buf.get() + off, n)); c.fault("segmentation"); if (!n) c.probe("empty call");
    } else if (op.k == "stream") {
      u64 total = op("mb") << 20, piece = std::max<u64>(op("piece"), 1), done = 0; Bytes plain = data(4242, 1 << 20); std::vector<u8> acc;
      while (done < total) { acc.clear(); size_t want = std::max<u64>(piece, 1 << 20); Bytes d(want); for (size_t i = 0; i < want; i += plain.size()) memcpy(&d[i], plain.data(), std::min(plain.size(), want - i)); Bytes e = d;
        for (size_t i = 0; i < want; i += piece) x.o->Encrypt({e.data() + i, std::min<size_t>(piece, want - i)}); check(x, d, e, "long stream"); done += want; }
      c.fault("segmentation", total / piece); c.probe("beyond 65536 blocks"); if (total >> 30) c.probe("beyond 2^24 blocks");
    } else if (op.k == "copy") { if (op("to") == op("o")) continue; S y; y.key = x.key; y.nonce = x.nonce; y.pos = x.pos; y.o = std::make_unique<ChaCha20>(*x.o); s[op("to")] = std::move(y); c.fault("copied object"); }
    else if (op.k == "assign") { auto f = s.find(op("from")); if (f == s.end()) continue; *x.o = *f->second.o; x.key = f->second.key; x.nonce = f->second.nonce; x.pos = f->second.pos; c.fault("assigned object"); }
    else if (op.k == "jump") { if (op("block") * 64 <= x.pos || !canJump(x.key, x.nonce)) continue; jump(*x.o, (u32)op("block")); x.pos = op("block") * 64; c.fault("stream fast-forward"); }
  }
}
sim::Scenario sim::scenario{"C05", gen, run, fixed};
