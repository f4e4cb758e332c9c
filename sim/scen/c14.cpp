// C14: memory runs out. Every operation is run once undisturbed, then once for every allocation it makes (or a sample when there are
// many) with exactly that one, or that one and some following, failing. Objects that live longer (digests, sessions, keys, the store)
// see failures in the middle of a history and are compared with a reference afterwards.
#include "ops.h"
using namespace sim; using namespace pki;
static void gen(Rng& r, Plan& p, const Tier&) {
  bool big = r.chance(1, 3);
  if (r.chance(1, 2)) { u64 n = r.range(1, 4); for (u64 i = 0; i < n; i++) { u64 k = r.below(ops::KINDS); if (k == ops::X && r.chance(2, 3)) k = ops::BASE64; p.push_back(Op("op", {{"kind", k}, {"alg", r.below(20)}, {"seed", r.next() >> 16}, {"n", r.chance(1, 3) ? r.below(9) : r.chance(1, 10) ? r.below(5000) : r.below(300)}, {"cnt", r.chance(2, 3) ? 1 : r.range(2, 1000)}, {"start", r.below(1000)}, {"max", big ? 200 : 40}})); } return; }
  u64 objs = r.range(1, 3); for (u64 i = 0; i < objs; i++) p.push_back(Op("new", {{"o", i}, {"kind", r.below(7)}, {"alg", r.below(30)}, {"seed", r.next() >> 16}}));
  u64 n = r.range(3, 25); for (u64 i = 0; i < n; i++) p.push_back(Op("do", {{"o", r.below(objs)}, {"w", r.below(8)}, {"seed", r.next() >> 16}, {"n", r.chance(1, 4) ? r.below(4) : r.below(200)}, {"at", r.chance(1, 3) ? 0 : r.chance(2, 3) ? 1 + r.below(6) : 1 + r.below(120)}, {"cnt", r.chance(3, 4) ? 1 : 1000}}));
}
static std::vector<Plan> fixed(const Tier& t) { std::vector<Plan> v; for (u64 k = 0; k < ops::KINDS; k++) for (u64 alg = 0; alg < 12; alg++) { if (alg > 2 && k != ops::DIGEST && k != ops::NAMED && k != ops::CERT && k != ops::TRUST && k != ops::BUNDLEPARSE && k != ops::REFUSED) continue; v.push_back({Op("op", {{"kind", k}, {"alg", alg}, {"seed", 1000 + k * 100 + alg}, {"n", 70}, {"cnt", 1}, {"start", 0}, {"max", (u64)(t.thorough ? 5000 : 300)}})}); } return v; }
static u64 epos; static void entropyFor(u64 seed) { epos = 0; entropy::install([seed](u8* p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (u8)(mix(seed, epos++) >> 24); }); }
// runs f with the at-th allocation failing; true when it completed
struct Outcome { bool done = false, threw = false; Bytes r; std::string other; u64 fired = 0, seen = 0; int64_t held = 0; };
template <class F> static Outcome attempt(u64 at, u64 cnt, F f) {
  Outcome o; int64_t live = alloc::live(); alloc::arm(at ? at - 1 : ~0ULL, at ? cnt : 0);
  try { alloc::Region R; o.r = f(); o.done = true; } catch (const std::bad_alloc&) { o.threw = true; } catch (const std::exception& e) { alloc::disarm(); o.other = std::string("an exception of another kind: ") + e.what(); } catch (...) { alloc::disarm(); o.other = "a foreign exception"; }
  o.seen = alloc::seen(); o.fired = alloc::disarm(); o.held = alloc::live() - live - (o.r.capacity() ? 1 : 0); if (!o.other.empty()) o.held = 0; return o; }
struct Obj { virtual ~Obj() {} virtual std::function<Bytes()> act(const Op&) = 0; virtual void after(const Op&, Outcome&, Ctx&) = 0; virtual const char* name() = 0; virtual bool keeps(const Op&) { return false; } };
struct DigestObj : Obj { // selected by name
  Caligo::Hash h; oracle::Digest ref; DigestObj(const char* a, const char* b) : h(a), ref(b) {} Bytes d;
  const char* name() override { return "digest"; }
  std::function<Bytes()> act(const Op& o) override { d = data(o("seed"), o("n")); switch (o("w") % 4) { case 0: return [&] { return h.data(); }; case 1: return [&] { std::string s = h; return Bytes(s.begin(), s.end()); }; default: return [&] { h.add(std::span<const u8>(d)); return Bytes(); }; } }
  void after(const Op& o, Outcome& q, Ctx& c) override { u64 w = o("w") % 4; if (w >= 2 && q.done) ref.add(d); Bytes want = ref.get(); if (w == 0 && q.done) c.check(q.r == want, "wrong-result", "digest read while memory was short"); if (w == 1 && q.done) c.check(std::string(q.r.begin(), q.r.end()) == hex(want, 64), "wrong-result", "digest text read while memory was short: " + std::string(q.r.begin(), q.r.end())); c.check(h.data() == want, "object-damaged", "digest differs after a failed operation"); }
};
struct GcmObj : Obj { Bytes key, iv; rec::Gcm tx, rx; u64 n = 0, slack = 0, rn = 0, rslack = 0; Bytes pt, aad, ct; std::array<u8, 16> tag; std::array<u8, 16> outTag;
  GcmObj(u64 s) : key(data(s | 5, s & 16 ? 32 : 16)), iv(data(s + 32, 12)), tx(key, iv), rx(key, iv) {}
  const char* name() override { return "AES-GCM session"; }
  std::function<Bytes()> act(const Op& o) override { pt = data(o("seed"), o("n")); aad = data(o("seed") + 16, o("n") % 20); if (o("w") % 2) { u64 m = rn + o("w") / 2 % (rslack + 1); Bytes rt; oracle::gcm(key, rec::nonceFor(iv, m), pt, aad, ct, rt); memcpy(tag.data(), rt.data(), 16); return [this, m] { auto [p, ok] = rx.dec(ct, aad, tag); Bytes b = std::move(p); b.push_back(ok); return b; }; } return [&] { auto [c2, t] = tx.enc(pt, aad); outTag = t; return c2; }; }
  void after(const Op& o, Outcome& q, Ctx& c) override {
    if (o("w") % 2) { if (q.threw) { rslack++; return; } if (!q.done) return; bool ok = q.r.back(); q.r.pop_back(); u64 m = rn + o("w") / 2 % (rslack + 1);
      if (ok) { c.check(q.r == pt, "wrong-result", "AES-GCM decryption after a failed one"); rn = m + 1; rslack = 0; } else { c.check(rslack > 0, "session-damaged", "a genuine record is rejected although no call failed since the last one"); rn++; /* position advanced by one, unknown within the slack */ } return; }
    if (q.threw) { slack++; return; } if (!q.done) return; for (u64 m = n; m <= n + slack; m++) { Bytes rc, rt; oracle::gcm(key, rec::nonceFor(iv, m), pt, aad, rc, rt); if (q.r == rc && !memcmp(rt.data(), outTag.data(), 16)) { n = m + 1; slack = 0; return; } } c.fail("session-damaged", "after " + std::to_string(slack) + " failed calls the next record is not AES-GCM under any of the next record numbers"); }
};
struct CtrObj : Obj { Bytes key, iv; rec::Ctr tx; u64 n = 0, slack = 0; Bytes pt, buf; CtrObj(u64 s) : key(data(s | 5, s & 16 ? 32 : 16)), iv(data(s + 32, 16)), tx(key, iv, key.size() == 32) {}
  const char* name() override { return "AES-CTR session"; }
  std::function<Bytes()> act(const Op& o) override { pt = data(o("seed"), o("n")); buf = pt; bool d = o("w") & 1; return [this, d] { if (d) tx.dec(buf); else tx.enc(buf); return Bytes(); }; }
  void after(const Op&, Outcome& q, Ctx& c) override { if (q.threw) { c.check(buf == pt, "object-damaged", "data changed by a call that failed"); slack++; return; } if (!q.done) return; if (pt.empty()) { slack = slack; n++; return; } for (u64 m = n; m <= n + slack; m++) { Bytes ks = rec::ctrStream(key, iv, m, pt.size()), w = pt; for (size_t i = 0; i < w.size(); i++) w[i] ^= ks[i]; if (w == buf) { if (pt.size() >= 12) { n = m + 1; slack = 0; } else { n++; } return; } } c.fail("session-damaged", "after failed calls the next message is not under any of the next message numbers"); }
};
struct KeyObj : Obj { std::unique_ptr<Caligo::PrivateKey> k; Caligo::x509certificate cert; size_t ki; Bytes m, sig; bool pss; u64 h;
  KeyObj(size_t i) : k(Caligo::parsePrivateKey(oracle::rsa(i).derPriv)), cert(Caligo::parseCertificate(rsax::certFor(i))), ki(i) {}
  const char* name() override { return "RSA key"; }
  std::function<Bytes()> act(const Op& o) override { m = data(o("seed"), o("n")); pss = o("w") & 1; h = o("w") / 4 % 2; if (!rsax::fits(oracle::rsa(ki).n.size(), pss, h)) { pss = false; h = 0; } if (o("w") & 2) return [this] { return k->sign(rsax::scheme(pss, h), m); }; oracle::seedReference(o("seed")); sig = oracle::rsaSign(oracle::rsa(ki), rsax::HN[h], pss, pss ? m : rsax::seqOf(m)); if (o("seed") & 1) sig[o("seed") / 2 % sig.size()] ^= 1; return [this] { Bytes b(1); b[0] = cert.pubkey->validateSignature(rsax::scheme(pss, h), m, sig); return b; }; }
  void after(const Op& o, Outcome& q, Ctx& c) override { if (q.done && (o("w") & 2)) c.check(oracle::rsaVerify(oracle::rsa(ki), rsax::HN[h], pss, pss ? m : rsax::seqOf(m), q.r), "wrong-result", "signature made while memory was short does not verify"); if (q.done && !(o("w") & 2)) c.check(q.r[0] == !(o("seed") & 1), "wrong-result", "signature verdict"); }
};
struct StoreObj : Obj { ops::Shared& sh; std::map<std::string, Bytes>& have; Bytes der; std::vector<Caligo::x509certificate> v; Caligo::x509certificate add; std::string nm; bool want = false; Caligo::Truststore& ts; StoreObj(ops::Shared& s, std::map<std::string, Bytes>& h) : sh(s), have(h), ts(Caligo::Truststore::Instance()) {}
  const char* name() override { return "trust store"; }
  bool keeps(const Op& o) override { return o("w") % 3 == 0; }
  std::function<Bytes()> act(const Op& o) override { u64 s = o("seed"); auto& root = sh.roots[s % sh.roots.size()];
    if (o("w") % 3 == 0) { Op co("cert", {{"name", 3000 + s % 6}, {"issuer", 3000 + s % 6}, {"key", 24}, {"nb", off(1500000000)}, {"na", off(1900000000)}, {"ver", 3}, {"serial", s}}); der = mint(co).der; add = Caligo::parseCertificate(der); nm = add.subject; return [this] { ts.addCertificate(std::move(add)); return Bytes(); }; }
    if (o("w") % 3 == 1) { bool bad = s & 1, late = s & 2, inter = s & 4; Op ic("cert", {{"name", 900}, {"issuer", root.name}, {"key", 25}, {"sign", root.key}, {"nb", off(1500000050)}, {"na", off(1800000000)}, {"hash", 0}, {"ver", 3}, {"ca", 2}}), lc("cert", {{"name", 901}, {"issuer", inter ? 900 : root.name}, {"key", 24}, {"sign", bad ? 22 : inter ? 25 : root.key}, {"nb", off(1500000100)}, {"na", off(1700000000)}, {"hash", 0}, {"ver", 3}}); v.clear(); v.push_back(Caligo::parseCertificate(mint(lc).der)); if (inter) v.push_back(Caligo::parseCertificate(mint(ic).der)); want = !bad && !late; u64 t = late ? 1800000000 : 1600000000; return [this, t] { Bytes b(1); b[0] = ts.trust(v, t); return b; }; }
    nm = s & 1 ? "nobody at all, a name longer than any small string" : sh.names[s % sh.names.size()]; return [this] { Bytes b(1); b[0] = ts.get(nm).has_value(); return b; }; }
  void after(const Op& o, Outcome& q, Ctx& c) override { u64 w = o("w") % 3; if (w == 0) { auto g = ts.get(nm); bool now = g && (*g)->derCert == der; bool before = have.count(nm); if (q.done) { c.check(now, "wrong-result", "an added certificate is not in the store"); have[nm] = der; } else if (now) { have[nm] = der; } else { c.check(before ? (bool)g : !g, "object-damaged", "a failed addition left an incomplete certificate in the store"); } }
    if (w == 1 && q.done) c.check((bool)q.r[0] == want, "wrong-result", std::string("trust decision made while memory was short: ") + (q.r[0] ? "trusted" : "not trusted")); 
    if (w == 1 && q.threw) { u64 t = o("seed") & 2 ? 1800000000 : 1600000000; c.check(ts.trust(v, t) == want, "object-damaged", "trust decision repeated after it failed for lack of memory"); c.probe("decision repeated"); }
    if (w == 2 && q.done) c.check((bool)q.r[0] == have.count(nm), "wrong-result", "store lookup");
    for (auto& [n, d] : have) { auto g = ts.get(n); c.check(g && (*g)->derCert == d && (*g)->subject == n && (bool)(*g)->pubkey, "object-damaged", "the trust store lost or damaged a certificate after a failed operation"); } }
};
static void run(const Plan& plan, Ctx& c) {
  ops::Shared sh; ops::setup(sh, 2); std::map<std::string, Bytes> have; for (size_t i = 0; i < sh.names.size(); i++) have[sh.names[i]] = sh.roots[i].der; std::map<u64, std::unique_ptr<Obj>> obj;
  for (auto& op : plan) { c.step(); u64 k = 0; for (char q : op.k) k = k * 31 + q; c.shp(k * 977 + op("kind") * 31 + op("w") * 7 + std::min<u64>(op("at"), 20) * 1009 + op("alg") * 131 + op("o"));
    if (op.k == "op") {
      auto f = ops::prepare(op, &sh); if (!f) continue; std::string what = ops::name(op("kind")); u64 es = op("seed"); bool rnd = op("kind") % ops::KINDS == ops::RANDOM || op("kind") % ops::KINDS == ops::NUMBER; auto g = [&] { if (rnd) entropyFor(es); return f(); };
      g(); Outcome ref = attempt(0, 0, g); c.check(ref.done, "operation-fails", what + ": " + ref.other); c.check(ref.held == 0, "leak", what + ": " + std::to_string(ref.held) + " blocks not released by an undisturbed operation"); c.note(ref.r); u64 N = ref.seen; if (!N) { c.probe("operation without allocation"); continue; }
      u64 max = std::max<u64>(op("max"), 1), stride = N <= max ? 1 : N / max, first = N <= max ? 0 : op("start") % stride;
      for (u64 i = first; i < N; i += stride) { Outcome q = attempt(i + 1, std::max<u64>(op("cnt"), 1), g); std::string where = what + " when allocation " + std::to_string(i) + " of " + std::to_string(N) + " fails"; c.check(q.other.empty(), "wrong-exception", where + ": " + q.other); if (q.fired) c.fault("allocation failure", q.fired); if (q.threw) c.probe("out of memory reported");
        if (q.done) { c.check(q.r == ref.r, "wrong-result", where + ": " + firstDiff(q.r, ref.r)); if (q.fired) c.probe("completed without the memory"); } c.check(q.held <= 0, "leak", where + ": " + std::to_string(q.held) + " blocks not released"); if (i % 16 == first % 16 || N < 30) { Outcome again = attempt(0, 0, g); c.check(again.done && again.r == ref.r, "not-repeatable", where + ", repeating it gives something else"); c.check(again.held == 0, "leak", where + ", then repeated"); } }
      Outcome again = attempt(0, 0, g); c.check(again.done && again.r == ref.r, "not-repeatable", what + ": repeating it after the failures gives something else"); entropy::reset(); c.probe(what);
    } else if (op.k == "new") { u64 s = op("seed"), a = op("alg"); static const char* nm[] = {"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3-224", "sha3-256", "sha3-384", "sha3-512"}; std::unique_ptr<Obj> x; switch (op("kind") % 7) { case 0: case 1: x = std::make_unique<DigestObj>(nm[a % 10], nm[a % 10]); break; case 2: x = std::make_unique<GcmObj>(s); break; case 3: x = std::make_unique<CtrObj>(s); break; case 4: x = std::make_unique<KeyObj>(a % 2 ? 13 : 25); break; default: x = std::make_unique<StoreObj>(sh, have); } obj[op("o")] = std::move(x); }
    else if (op.k == "do") { auto it = obj.find(op("o")); if (it == obj.end()) continue; Obj& x = *it->second; entropyFor(op("seed")); auto f = x.act(op); Outcome q = attempt(op("at"), op("cnt"), f); entropy::reset(); c.check(q.other.empty(), "wrong-exception", std::string(x.name()) + ": " + q.other); c.check(q.done || q.fired, "operation-fails", std::string(x.name()) + " reported lack of memory although none was missing"); if (q.fired) c.fault("allocation failure in a long-lived object", q.fired); if (!x.keeps(op)) c.check(q.held <= 0, "leak", std::string(x.name()) + ": " + std::to_string(q.held) + " blocks not released"); c.note(q.threw); c.note(q.r); x.after(op, q, c); c.probe(x.name()); }
  }
}
static void warm() { for (size_t i = 0; i < oracle::rsaCount(); i++) oracle::rsa(i); }
sim::Scenario sim::scenario{"C14", gen, run, fixed, warm};
