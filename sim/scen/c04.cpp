// C04: digest objects as long-lived stateful nodes. A history interleaves additions, reads, copies and assignments over
// several objects; the oracle keeps one independent reference digest per object.
#include "sim.h"
#include "oracle.h"
#include <caligo/md5.h>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/sha3.h>
#include <caligo/crc.h>
#include <caligo/hash.h>
#include <sys/mman.h>
using namespace sim; using namespace Caligo;

static const char* names[] = {"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3-224", "sha3-256", "sha3-384", "sha3-512", "crc32"};
static const size_t block[] = {64, 64, 64, 64, 128, 128, 144, 136, 104, 72, 1};
static const std::vector<std::vector<const char*>> runtimeNames = {{"md5"}, {"sha1", "sha"}, {"sha224", "sha2-224"}, {"sha256", "sha2-256"}, {"sha384", "sha2-384"}, {"sha512", "sha2-512"}, {"sha3-224"}, {"sha3-256"}, {"sha3-384"}, {"sha3-512"}};

struct Obj { virtual ~Obj() {} virtual void add(std::span<const u8>) = 0; virtual void addText(std::string_view) = 0; virtual Bytes get() = 0; virtual Bytes get2() = 0; virtual std::string hexs() = 0; virtual std::unique_ptr<Obj> copy() { return nullptr; } virtual bool assign(Obj&) { return false; } virtual size_t size() = 0; };
template <class H> struct TObj : Obj {
  H h; TObj() {} TObj(const H& o) : h(o) {}
  void add(std::span<const u8> d) override { h.add(d); }
  void addText(std::string_view d) override { h.add(d); }
  Bytes get() override { std::array<u8, H::hashsize> a = h; return Bytes(a.begin(), a.end()); }
  Bytes get2() override { const H& c = h; auto a = c.data(); return Bytes(a.begin(), a.end()); }
  std::string hexs() override { return std::string(h); }
  std::unique_ptr<Obj> copy() override { return std::make_unique<TObj>(h); }
  bool assign(Obj& o) override { if (auto p = dynamic_cast<TObj*>(&o)) { h = p->h; return true; } return false; }
  size_t size() override { return H::hashsize; }
};
struct RObj : Obj {
  Hash h; RObj(const char* n) : h(n) {}
  void add(std::span<const u8> d) override { h.add(d); }
  void addText(std::string_view d) override { h.add(d); }
  Bytes get() override { return h; }
  Bytes get2() override { return h.data(); }
  std::string hexs() override { return std::string(h); }
  size_t size() override { return h.hashsize(); }
};
static std::unique_ptr<Obj> make(u64 alg, u64 how) {
  if (how && alg < 10) return std::make_unique<RObj>(runtimeNames[alg][(how - 1) % runtimeNames[alg].size()]);
  switch (alg) {
    case 0: return std::make_unique<TObj<MD5>>(); case 1: return std::make_unique<TObj<SHA1>>();
    case 2: return std::make_unique<TObj<SHA2<224>>>(); case 3: return std::make_unique<TObj<SHA2<256>>>(); case 4: return std::make_unique<TObj<SHA2<384>>>(); case 5: return std::make_unique<TObj<SHA2<512>>>();
    case 6: return std::make_unique<TObj<SHA3<224>>>(); case 7: return std::make_unique<TObj<SHA3<256>>>(); case 8: return std::make_unique<TObj<SHA3<384>>>(); case 9: return std::make_unique<TObj<SHA3<512>>>();
    default: return std::make_unique<TObj<CRC32>>();
  }
}
template <class H> static Bytes ctor(std::span<const u8> a, std::span<const u8> b, int n) { std::array<u8, H::hashsize> r; if (n == 1) { H h(a); r = h; } else { H h(a, b); r = h; } return Bytes(r.begin(), r.end()); }
static Bytes oneShot(u64 alg, std::span<const u8> a, std::span<const u8> b, int n) {
  switch (alg) { case 0: return ctor<MD5>(a, b, n); case 1: return ctor<SHA1>(a, b, n); case 2: return ctor<SHA2<224>>(a, b, n); case 3: return ctor<SHA2<256>>(a, b, n); case 4: return ctor<SHA2<384>>(a, b, n); case 5: return ctor<SHA2<512>>(a, b, n);
    case 6: return ctor<SHA3<224>>(a, b, n); case 7: return ctor<SHA3<256>>(a, b, n); case 8: return ctor<SHA3<384>>(a, b, n); case 9: return ctor<SHA3<512>>(a, b, n); default: return ctor<CRC32>(a, b, n); }
}
static size_t pickLen(Rng& r, size_t B) {
  switch (r.below(12)) {
    case 0: return 0; case 1: return 1; case 2: return B; case 3: return B - 1 + (B == 1); case 4: return B + 1; case 5: return B * r.range(1, 5) + r.below(3) - (r.chance(1, 2) ? 1 : 0);
    case 6: return r.below(B + 1); case 7: return B > 16 ? B - 8 - r.below(3) : r.below(9); case 8: return B > 16 ? B - 16 - r.below(3) : r.below(17); case 9: return r.below(4 * B); case 10: return r.below(3000);
    default: return r.chance(1, 12) ? r.below(300000) : r.below(64);
  }
}
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 n = r.range(1, 5), ops = r.range(2, 40); u64 focus = r.below(11); bool mono = r.chance(1, 2);
  if (r.chance(1, 3)) p.push_back(Op("poison", {{"b", r.below(256)}}));
  std::vector<u64> alg;
  for (u64 i = 0; i < n; i++) { u64 a = mono ? focus : r.below(11); alg.push_back(a); p.push_back(Op("new", {{"o", i}, {"alg", a}, {"how", r.chance(1, 3) ? 1 + r.below(2) : 0}})); }
  for (u64 i = 0; i < ops; i++) {
    u64 o = r.below(n);
    switch (r.below(10)) {
      case 0: p.push_back(Op("copy", {{"o", o}, {"to", r.below(n + 1)}})); break;
      case 1: p.push_back(Op("assign", {{"o", o}, {"from", r.below(n)}})); break;
      case 2: case 3: p.push_back(Op("read", {{"o", o}})); break;
      case 4: p.push_back(Op("burst", {{"o", o}, {"n", r.range(1, 200)}, {"len", r.chance(1, 2) ? 1 : r.range(0, 9)}, {"d", dataSeed(r)}})); break;
      case 5: if (r.chance(1, 3)) p.push_back(Op("ctor", {{"alg", alg[o]}, {"len", pickLen(r, block[alg[o]])}, {"len2", pickLen(r, block[alg[o]])}, {"two", r.below(2)}, {"d", dataSeed(r)}})); else if (r.chance(1, 3)) p.push_back(Op("badname", {{"d", r.below(1000)}, {"m", r.below(8)}, {"x", r.next() >> 30}})); else p.push_back(Op("new", {{"o", o}, {"alg", alg[o]}, {"how", r.chance(1, 3) ? 1 + r.below(2) : 0}})); break;
      default: p.push_back(Op(r.chance(1, 4) ? "text" : "add", {{"o", o}, {"len", pickLen(r, block[alg[o]])}, {"d", dataSeed(r)}, {"off", r.below(17)}}));
    }
  }
}
static std::vector<Plan> fixed(const Tier& t) {
  std::vector<Plan> v;
  // messages longer than 2^29 bytes (bit count beyond 32 bits) for every algorithm; beyond 2^32 bytes for all in the thorough tier
  for (u64 a = 0; a < 11; a++) v.push_back({Op("new", {{"o", 0}, {"alg", a}, {"how", 0}}), Op("haul", {{"o", 0}, {"mb", 513}, {"tail", 37}}), Op("read", {{"o", 0}}), Op("add", {{"o", 0}, {"len", 100}, {"d", 5}}), Op("read", {{"o", 0}})});
  for (u64 a = 0; a < 11; a++) if (t.thorough || a == 0 || a == 1 || a == 3 || a == 5)
    v.push_back({Op("new", {{"o", 0}, {"alg", a}, {"how", a & 1}}), Op("haul", {{"o", 0}, {"mb", 4097}, {"tail", 11}}), Op("read", {{"o", 0}}), Op("add", {{"o", 0}, {"len", 55}, {"d", 7}}), Op("read", {{"o", 0}})});
  // a single addition larger than 2^32 bytes
  if (t.thorough) for (u64 a = 0; a < 11; a++) v.push_back({Op("new", {{"o", 0}, {"alg", a}, {"how", 0}}), Op("add", {{"o", 0}, {"len", 3}, {"d", 7}}), Op("whale", {{"o", 0}, {"mb", 4097}}), Op("read", {{"o", 0}})});
  else for (u64 a : {0, 1, 3, 5, 7, 10}) v.push_back({Op("new", {{"o", 0}, {"alg", a}, {"how", 0}}), Op("add", {{"o", 0}, {"len", 3}, {"d", 7}}), Op("whale", {{"o", 0}, {"mb", 4097}}), Op("read", {{"o", 0}})});
  return v;
}
static void run(const Plan& plan, Ctx& c) {
  struct Slot { std::unique_ptr<Obj> o; std::unique_ptr<oracle::Digest> ref; u64 alg = 0, len = 0; };
  std::map<u64, Slot> s;
  auto verify = [&](Slot& x, const char* when) {
    Bytes want = x.ref->get(), got = x.o->get();
    c.check(got == want, "digest-differs", std::string(names[x.alg]) + " after " + std::to_string(x.len) + " bytes " + when + ": got " + hex(got, 64) + " expected " + hex(want, 64));
    Bytes g2 = x.o->get2(); c.check(g2 == want, "data-accessor-differs", names[x.alg]);
    std::string hs = x.o->hexs(); c.check(hs == hex(want, 64), "hex-differs", std::string(names[x.alg]) + ": " + hs + " for " + hex(want, 64));
    c.check(x.o->size() == want.size(), "hashsize-differs", names[x.alg]);
    Bytes again = x.o->get(); c.check(again == want, "read-not-repeatable", names[x.alg]);
    c.note(got);
  };
  for (auto& op : plan) {
    c.step(); u64 k = 0; for (char ch : op.k) k = k * 31 + ch; c.shp(k * 977 + op("o") * 31 + std::min<u64>(op("len"), 700));
    if (op.k == "poison") { alloc::fillPattern((u8)op("b")); continue; }
    if (op.k == "badname") {
      static const char* bad[] = {"", "sha3", "sha2", "SHA256", "sha-256", "sha25", "sha2560", "sha3-255", "md4", "md55", "sha2-2567", "crc32", "sha512/256", "blake2b", "md5 ", " md5", "sha3-2561"}; std::string n = bad[op("d") % 17];
      static const char* good[] = {"md5", "sha", "sha1", "sha224", "sha256", "sha384", "sha512", "sha2-224", "sha2-256", "sha2-384", "sha2-512", "sha3-224", "sha3-256", "sha3-384", "sha3-512"};
      if (u64 m = op("m")) { n = good[op("d") % 15]; u64 x = op("x"); switch (m % 7) { case 0: n.resize(x % n.size()); break; case 1: n.push_back((char)(x & 1 ? 32 + x / 2 % 96 : x / 2)); break; case 2: n[x % n.size()] = (char)(x >> 8); break; case 3: n.insert(x % (n.size() + 1), 1, (char)(x >> 8)); break; case 4: n.erase(x % n.size(), 1); break; case 5: n[x % n.size()] ^= 0x20; break; default: n += good[x % 15]; }
        bool known = false; for (auto g : good) known |= n == g; if (known) continue; }
      bool threw = false; try { Hash h(n); } catch (const std::exception&) { threw = true; }
      c.check(threw, "unknown-name-accepted", "'" + n + "'"); c.probe("unknown name"); continue;
    }
    if (op.k == "ctor") {
      Bytes a = data(op("d"), op("len")), b = data(op("d") + 16, op("len2")); oracle::Digest d(names[op("alg") % 11]); d.add(a); if (op("two")) d.add(b);
      Bytes got = oneShot(op("alg") % 11, a, b, op("two") ? 2 : 1); c.check(got == d.get(), "one-shot-differs", names[op("alg") % 11]); c.note(got); continue;
    }
    if (op.k == "new") { Slot x; x.alg = op("alg") % 11; x.o = make(x.alg, op("how")); x.ref = std::make_unique<oracle::Digest>(names[x.alg]); s[op("o")] = std::move(x); continue; }
    auto it = s.find(op("o")); if (it == s.end()) continue; Slot& x = it->second;
    if (op.k == "add" || op.k == "text") {
      // the buffer is an exact-size heap block at a chosen misalignment, and is destroyed right after the call
      size_t n = op("len"), off = op("off"); Bytes d = data(op("d"), n); auto buf = std::make_unique<u8[]>(n + off); memcpy(buf.get() + off, d.data(), n);
      if (op.k == "add") x.o->add({buf.get() + off, n}); else x.o->addText({(const char*)buf.get() + off, n});
      c.check(!memcmp(buf.get() + off, d.data(), n), "input-modified", names[x.alg]); memset(buf.get(), 0xEE, n + off);
      x.ref->add(d); x.len += n; c.fault("segmentation"); if (n == 0) c.probe("empty addition"); if (x.len % block[x.alg] == 0) c.probe("block boundary");
    } else if (op.k == "burst") {
      u64 n = op("n"), l = op("len"); Bytes d = data(op("d"), n * l); Given g(d); for (u64 i = 0; i < n; i++) x.o->add({g.p + i * l, l}); g.ok(); x.ref->add(d); x.len += d.size(); c.fault("segmentation", n);
    } else if (op.k == "haul") {
      Bytes chunk = data(12345, 1 << 20); u64 mb = op("mb"); u64 piece = 999983;  // never aligned to a block
      u64 total = mb << 20, done = 0; while (done < total) { u64 n = std::min<u64>(piece, total - done); x.o->add({chunk.data(), n}); x.ref->add({chunk.data(), n}); done += n; }
      x.o->add({chunk.data(), op("tail")}); x.ref->add({chunk.data(), op("tail")}); x.len += total + op("tail"); c.fault("long message"); if (total >= (1ULL << 32)) c.probe("message beyond 2^32 bytes"); else c.probe("message beyond 2^29 bytes");
    } else if (op.k == "whale") {
      size_t n = op("mb") << 20; u8* m = (u8*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { c.probe("no address space"); continue; }
      x.o->add({m, n}); Bytes z(1 << 20); for (u64 i = 0; i < op("mb"); i++) x.ref->add(z); x.len += n; munmap(m, n); c.fault("long message"); c.probe("one addition beyond 2^32 bytes");
    } else if (op.k == "read") { verify(x, "read"); c.fault("read in between"); }
    else if (op.k == "copy") { auto cp = x.o->copy(); if (!cp) continue; Slot y; y.alg = x.alg; y.len = x.len; y.o = std::move(cp); y.ref = std::make_unique<oracle::Digest>(*x.ref); if (op("to") == op("o")) continue; s[op("to")] = std::move(y); c.fault("copied object"); }
    else if (op.k == "assign") { auto f = s.find(op("from")); if (f == s.end()) continue; if (x.o->assign(*f->second.o)) { *x.ref = oracle::Digest(*f->second.ref); x.len = f->second.len; c.fault("assigned object"); } }
  }
  for (auto& [k, x] : s) verify(x, "at the end");
}
sim::Scenario sim::scenario{"C04", gen, run, fixed};
