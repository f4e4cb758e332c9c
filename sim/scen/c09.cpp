// C09: two peers exchange X25519 values and handshake messages over a hostile network and derive TLS 1.3 secrets.
// Each peer's secrets are compared with a reference derivation of what that peer saw, and with the other peer's.
#include "sim.h"
#include "oracle.h"
#include <caligo/x25519.h>
#include <caligo/hkdf.h>
#include <caligo/md5.h>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/sha3.h>
#include <caligo/aes.h>
using namespace sim; using namespace Caligo;
static const char* hn[] = {"sha256", "sha384", "sha512", "sha224", "sha3-256", "sha3-384", "sha3-512", "sha3-224", "sha1", "md5"};
static const size_t bs[] = {64, 128, 128, 64, 136, 104, 72, 144, 64, 64}, hs[] = {32, 48, 64, 28, 32, 48, 64, 28, 20, 16};
struct Keys { std::map<std::string, Bytes> v; };
template <class H> static Bytes arr(const std::array<u8, H::hashsize>& a) { return Bytes(a.begin(), a.end()); }
template <class H> static void derive(const Bytes& shared_, const Bytes& th_, const Bytes& th2_, u64 updates, Keys& k) {
  Given shared(shared_), th(th_), th2(th2_);
  secret<H> h = HKDF_HandshakeSecret<H>(shared); k.v["handshake"] = arr<H>(h.data);
  for (bool c : {true, false}) { std::string w = c ? "client" : "server";
    k.v[w + " hs traffic"] = h.get_traffic_secret(th, c, true); k.v[w + " finished"] = h.get_finished_key(th, c);
    auto p = h.template get_key_iv<AES<128>>(th, c, true); k.v[w + " hs key128"] = p.key; k.v[w + " hs iv"] = p.iv; auto q = h.template get_key_iv<AES<256>>(th, c, true); k.v[w + " hs key256"] = q.key; }
  secret<H> m = HKDF_MasterSecret<H>(h); k.v["master"] = arr<H>(m.data);
  for (bool c : {true, false}) { std::string w = c ? "client" : "server"; Bytes t = m.get_traffic_secret(th2, c, false); k.v[w + " ap traffic"] = t; auto p = m.template get_key_iv<AES<128>>(th2, c); k.v[w + " ap key128"] = p.key; k.v[w + " ap iv"] = p.iv; auto q = m.template get_key_iv<AES<256>>(th2, c, false); k.v[w + " ap key256"] = q.key; k.v[w + " ap iv2"] = q.iv;
    secret<H> u; std::copy(t.begin(), t.end(), u.data.begin()); for (u64 i = 0; i < updates; i++) { u = HKDF_UpdateSecret<H>(u); k.v[w + " update " + std::to_string(i)] = arr<H>(u.data); } }
  k.v["exporter"] = exporter_master<H>(m, th2); k.v["resumption"] = resumption_master<H>(m, th2); shared.ok(); th.ok(); th2.ok();
}
static void refDerive(const char* n, const Bytes& shared, const Bytes& th, const Bytes& th2, u64 updates, Keys& k) {
  size_t L = oracle::digest(n, {}).size(); Bytes z(L), e = oracle::digest(n, {}); auto X = [&](const Bytes& s, const std::string& l, const Bytes& c, size_t len) { return oracle::expandLabel(n, s, l, c, len); };
  Bytes h = oracle::hkdfExtract(n, X(oracle::hkdfExtract(n, z, z), "derived", e, L), shared); k.v["handshake"] = h;
  for (bool c : {true, false}) { std::string w = c ? "client" : "server"; Bytes t = X(h, c ? "c hs traffic" : "s hs traffic", th, L); k.v[w + " hs traffic"] = t; k.v[w + " finished"] = X(t, "finished", {}, L); k.v[w + " hs key128"] = X(t, "key", {}, 16); k.v[w + " hs iv"] = X(t, "iv", {}, 12); k.v[w + " hs key256"] = X(t, "key", {}, 32); }
  Bytes m = oracle::hkdfExtract(n, X(h, "derived", e, L), z); k.v["master"] = m;
  for (bool c : {true, false}) { std::string w = c ? "client" : "server"; Bytes t = X(m, c ? "c ap traffic" : "s ap traffic", th2, L); k.v[w + " ap traffic"] = t; k.v[w + " ap key128"] = X(t, "key", {}, 16); k.v[w + " ap iv"] = k.v[w + " ap iv2"] = X(t, "iv", {}, 12); k.v[w + " ap key256"] = X(t, "key", {}, 32);
    for (u64 i = 0; i < updates; i++) { t = X(t, "traffic upd", {}, L); k.v[w + " update " + std::to_string(i)] = t; } }
  k.v["exporter"] = X(m, "exp master", th2, L); k.v["resumption"] = X(m, "res master", th2, L);
}
template <class F> static auto by(u64 h, F f) { switch (h % 10) { case 0: return f((SHA2<256>*)0); case 1: return f((SHA2<384>*)0); case 2: return f((SHA2<512>*)0); case 3: return f((SHA2<224>*)0); case 4: return f((SHA3<256>*)0); case 5: return f((SHA3<384>*)0); case 6: return f((SHA3<512>*)0); case 7: return f((SHA3<224>*)0); case 8: return f((SHA1*)0); default: return f((MD5*)0); } }
#define H_(p) std::remove_pointer_t<decltype(p)>

static Bytes special(u64 n, u64 d) { // public values the network may deliver
  Bytes b(32); static const char* low[] = {"0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000", "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"};
  auto hexv = [&](const char* s) { for (int i = 0; i < 32; i++) { auto q = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; b[i] = q(s[2 * i]) * 16 + q(s[2 * i + 1]); } };
  if (n < 7) hexv(low[n]); else if (n < 14) { hexv(low[n - 7]); b[31] ^= 0x80; } else if (n == 14) { b.assign(32, 0xff); } else if (n == 15) { b.assign(32, 0xff); b[0] = 0xed + d % 19; b[31] = d & 32 ? 0xff : 0x7f; } else if (n == 16) { b[d % 32] = 1 << (d >> 8) % 8; } else if (n == 17) { b.assign(32, 0xff); b[d % 32] ^= 1 << (d >> 8) % 8; } else if (n == 18) b[0] = 9; else { b = data(d | 5, 32); for (size_t i = 0; i < 8; i++) if (d >> i & 1) for (int j = 0; j < 4; j++) b[i * 4 + j] = d & 256 ? 0xff : 0; }
  return b;
}
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 n = r.range(1, 3); if (r.chance(1, 3)) p.push_back(Op("poison", {{"b", r.below(256)}}));
  for (u64 i = 0; i < n; i++) {
    u64 what = r.below(10); u64 h = r.chance(1, 2) ? r.below(3) : r.below(10);
    if (what < 6) { // a handshake: entropy, network faults
      p.push_back(Op("hs", {{"h", h}, {"ea", r.next() >> 8}, {"eb", r.next() >> 8}, {"upd", r.below(4)}}));
      u64 m = r.range(2, 6); for (u64 k = 0; k < m; k++) p.push_back(Op("msg", {{"from", k == 0 ? 0 : k == 1 ? 1 : r.below(2)}, {"len", r.chance(1, 6) ? r.below(2000) : r.below(120)}, {"d", dataSeed(r)}, {"fault", r.chance(1, 6) ? r.range(1, 6) : 0}, {"x", r.next() >> 20}}));
      if (r.chance(1, 3)) p.push_back(Op("pub", {{"to", r.below(2)}, {"kind", r.below(20)}, {"d", r.next() >> 8}}));
      if (r.chance(1, 8)) p.push_back(Op("entropyfault", {{"at", r.below(8)}, {"kind", r.range(1, 3)}, {"arg", r.range(1, 7)}}));
      p.push_back(Op("finish"));
    } else if (what < 7) p.push_back(Op("x25519", {{"kk", r.below(20)}, {"kd", r.next() >> 8}, {"uk", r.below(20)}, {"ud", r.next() >> 8}}));
    else if (what < 9) { size_t B = bs[h], L = hs[h]; auto len = [&]() -> u64 { switch (r.below(8)) { case 0: return 0; case 1: return B; case 2: return B + 1; case 3: return B - 1; case 4: return L; case 5: return r.below(3 * B); case 6: return r.chance(1, 4) ? r.below(5000) : r.below(40); default: return r.below(B); } };
      p.push_back(Op("hmac", {{"h", h}, {"kl", len()}, {"kd", dataSeed(r)}, {"tl", len()}, {"td", dataSeed(r)}}));
      p.push_back(Op("hkdf", {{"h", h}, {"sl", len()}, {"sd", dataSeed(r)}, {"il", len()}, {"nl", len()}, {"ol", r.chance(1, 5) ? 255 * L - r.below(3) : r.chance(1, 3) ? L * r.range(0, 4) + r.below(3) : r.below(500)}})); }
    else p.push_back(Op("label", {{"h", h}, {"pl", r.below(100)}, {"pd", dataSeed(r)}, {"ll", r.chance(1, 4) ? 249 - r.below(3) : r.below(30)}, {"cl", r.chance(1, 4) ? 255 - r.below(3) : r.below(70)}, {"ol", r.chance(1, 4) ? 255 * hs[h] - r.below(2) : r.below(700)}}));
  }
}
struct Peer { Bytes priv, pub, peerPub, hello; std::vector<Bytes> seen; };
static Bytes lib25519(const Bytes& k, const Bytes& u) { Placed a(k), b(u); return X25519(ec_value(bignum<256>(a.s())), ec_value(bignum<256>(b.s()))).as_bytes(); }
static void run(const Plan& plan, Ctx& c) {
  Peer P[2]; bool live = false; u64 h = 0, upd = 0; u64 eseed[2]; int turn = 0; u64 drawn = 0; std::map<u64, EntropyEvent> ef; std::vector<const Op*> pend; const Op* pubOp = nullptr;
  Rng* er[2] = {nullptr, nullptr}; std::unique_ptr<Rng> ra, rb; u64 ecall = 0;
  entropy::install([&](u8* b, size_t n) { Rng* r = er[turn]; for (size_t i = 0; i < n; i++) { u64 mode = eseed[turn] & 15; b[i] = mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? (i & 1 ? 0 : 0xff) : (u8)r->next(); } drawn += n; });
  entropy::script([&](u64, size_t) { u64 at = ecall++; auto it = ef.find(at); if (it == ef.end()) return EntropyEvent{0, 0}; auto e = it->second; ef.erase(it); c.fault(e.kind == 1 ? "entropy: short read" : e.kind == 2 ? "entropy: interrupted" : "entropy: error"); if (e.kind == 3) e.arg = 38; return e; });
  auto finish = [&] {
    if (!live) return; live = false; ecall = 0;
    // both peers draw a private key (retrying when the source fails) and publish
    for (int i : {0, 1}) { turn = i; for (int tries = 0;; tries++) { try { ec_value k = ec_value::random_private_key(); P[i].priv = k.as_bytes(); break; } catch (const std::exception&) { c.check(tries < 8, "no-progress", "private key generation keeps failing"); c.probe("key generation retried after entropy failure"); } }
      P[i].pub = lib25519(P[i].priv, special(18, 0)); Bytes want = oracle::x25519pub(P[i].priv); c.check(P[i].pub == want, "public-value", firstDiff(P[i].pub, want)); }
    P[0].peerPub = P[1].pub; P[1].peerPub = P[0].pub; P[0].seen.clear(); P[1].seen.clear();
    if (pubOp) { int t = (*pubOp)("to") & 1; P[t].peerPub = special((*pubOp)("kind"), (*pubOp)("d")); c.fault("public value replaced in transit"); }
    P[0].seen = {P[0].pub, P[0].peerPub}; P[1].seen = {P[1].peerPub, P[1].pub};
    for (auto* o : pend) { int f = (*o)("from") & 1, t = 1 - f; Bytes m = data((*o)("d"), (*o)("len")); P[f].seen.push_back(m); u64 x = (*o)("x");
      switch ((*o)("fault")) { case 1: if (!m.empty()) m[x % m.size()] ^= 1 << (x >> 32) % 8; P[t].seen.push_back(m); c.fault("handshake message corrupted"); break; case 2: c.fault("handshake message lost"); break; case 3: P[t].seen.push_back(m); P[t].seen.push_back(m); c.fault("handshake message duplicated"); break; case 4: P[t].seen.insert(P[t].seen.end() - (P[t].seen.size() > 2 ? 1 : 0), m); c.fault("handshake messages reordered"); break; case 5: m.push_back((u8)x); P[t].seen.push_back(m); c.fault("handshake message extended"); break; case 6: if (!m.empty()) m.pop_back(); P[t].seen.push_back(m); c.fault("handshake message truncated"); break; default: P[t].seen.push_back(m); } }
    Keys K[2], R[2]; Bytes th[2], th2[2], sh[2];
    for (int i : {0, 1}) {
      sh[i] = lib25519(P[i].priv, P[i].peerPub); Bytes want = oracle::x25519(P[i].priv, P[i].peerPub); c.check(sh[i] == want, "shared-secret", "peer " + std::to_string(i) + " public value " + hex(P[i].peerPub) + ": " + firstDiff(sh[i], want));
      by(h, [&](auto* p) { using H = H_(p); H d; size_t n = 0; for (auto& m : P[i].seen) { Placed pm(m); d.add(pm.s()); if (++n == 3) { auto a = d.data(); th[i] = Bytes(a.begin(), a.end()); } } auto a = d.data(); th2[i] = Bytes(a.begin(), a.end()); if (th[i].empty()) th[i] = th2[i]; derive<H>(sh[i], th[i], th2[i], upd, K[i]); });
      oracle::Digest od(hn[h % 10]); Bytes o1; size_t n = 0; for (auto& m : P[i].seen) { od.add(m); if (++n == 3) o1 = od.get(); } Bytes o2 = od.get(); if (o1.empty()) o1 = o2; refDerive(hn[h % 10], want, o1, o2, upd, R[i]);
      for (auto& [k, v] : R[i].v) c.check(K[i].v[k] == v, "not-standard", std::string(hn[h % 10]) + " " + k + " of peer " + std::to_string(i) + ": " + firstDiff(K[i].v[k], v));
      for (auto& [k, v] : K[i].v) c.note(v);
    }
    bool sameHs = sh[0] == sh[1] && th[0] == th[1], sameAp = sh[0] == sh[1] && th2[0] == th2[1];
    for (auto& [k, v] : K[0].v) { bool hsk = k.find(" hs ") != std::string::npos || k.find("finished") != std::string::npos, base = k == "handshake" || k == "master"; bool same = base ? sh[0] == sh[1] : hsk ? sameHs : sameAp;
      c.check((v == K[1].v[k]) == same, same ? "peers-disagree" : "keys-equal-despite-different-view", k); }
    c.probe(sameAp ? "peers agree" : "peers see different handshakes");
    std::set<Bytes> all; size_t cnt = 0; for (auto& [k, v] : K[0].v) if (v.size() >= 16 && k.find("iv") == std::string::npos) { all.insert(v); cnt++; } c.check(all.size() == cnt, "derived-values-coincide", "two different secrets of one handshake are equal");
  };
  for (auto& op : plan) {
    c.step(); u64 k = 0; for (char q : op.k) k = k * 31 + q; c.shp(k * 977 + op("h") * 31 + op("fault") * 7919 + op("kind") * 131 + op("kl") * 3 + op("ol") * 5 + op("ea") % 16);
    if (op.k == "poison") alloc::fillPattern((u8)op("b"));
    else if (op.k == "hs") { finish(); live = true; h = op("h"); upd = op("upd") % 8; eseed[0] = op("ea"); eseed[1] = op("eb"); ra = std::make_unique<Rng>(op("ea")); rb = std::make_unique<Rng>(op("eb") ^ 0x77777777); er[0] = ra.get(); er[1] = rb.get(); pend.clear(); pubOp = nullptr; ef.clear(); }
    else if (op.k == "msg") pend.push_back(&op); else if (op.k == "pub") pubOp = &op; else if (op.k == "entropyfault") ef[op("at")] = {(int)op("kind"), op("arg")};
    else if (op.k == "finish") finish();
    else if (op.k == "x25519") { Bytes kk = special(op("kk"), op("kd")), u = special(op("uk"), op("ud")); Bytes a = lib25519(kk, u), w = oracle::x25519(kk, u); c.check(a == w, "shared-secret", "scalar " + hex(kk) + " value " + hex(u) + ": " + firstDiff(a, w)); c.note(a); c.fault("adversarial public value"); }
    else if (op.k == "hmac") { Bytes key = data(op("kd"), op("kl")), t = data(op("td"), op("tl")); Bytes a = by(op("h"), [&](auto* p) { Given pt(t), pk(key); auto x = HMAC<H_(p)>(pt, pk); pt.ok(); pk.ok(); return Bytes(x.begin(), x.end()); }); Bytes w = oracle::hmac(hn[op("h") % 10], key, t); c.check(a == w, "hmac", std::string(hn[op("h") % 10]) + " key " + std::to_string(key.size()) + " text " + std::to_string(t.size())); c.note(a); }
    else if (op.k == "hkdf") { Bytes s = data(op("sd"), op("sl")), ikm = data(op("sd") + 1, op("il")), info = data(op("sd") + 2, op("nl")); const char* n = hn[op("h") % 10]; size_t L = hs[op("h") % 10], ol = std::min<u64>(op("ol"), 255 * L);
      auto [prk, okm] = by(op("h"), [&](auto* p) { Given ps(s), pi(ikm), pn(info); auto x = HKDF_Extract<H_(p)>(ps, pi); Bytes b(x.begin(), x.end()); Given pb(b); auto out = HKDF_Expand<H_(p)>(pb, pn, ol); ps.ok(); pi.ok(); pn.ok(); pb.ok(); return std::pair<Bytes, Bytes>(b, out); });
      Bytes wp = oracle::hkdfExtract(n, s, ikm), wo = oracle::hkdfExpand(n, wp, info, ol); c.check(prk == wp, "hkdf-extract", n); c.check(okm == wo, "hkdf-expand", std::string(n) + " length " + std::to_string(ol) + ": " + firstDiff(okm, wo)); c.note(okm); }
    else if (op.k == "label") { Bytes prk = data(op("pd"), op("pl")), ctx = data(op("pd") + 1, std::min<u64>(op("cl"), 255)); std::string l(std::min<u64>(op("ll"), 249), 'q'); const char* n = hn[op("h") % 10]; size_t ol = std::min<u64>(op("ol"), 255 * hs[op("h") % 10]);
      Bytes a = by(op("h"), [&](auto* p) { Given pp(prk), pc(ctx); auto out = HKDF_Expand_Label<H_(p)>(pp, l, pc, ol); pp.ok(); pc.ok(); return out; }), w = oracle::expandLabel(n, prk, l, ctx, ol); c.check(a == w, "hkdf-label", std::string(n) + " label " + std::to_string(l.size()) + " context " + std::to_string(ctx.size()) + " length " + std::to_string(ol)); c.note(a); }
  }
  finish(); entropy::reset();
}
sim::Scenario sim::scenario{"C09", gen, run, nullptr};
