// C10: signers and verifiers exchange messages and RSA signatures over a network that damages, replays and mixes them.
#include "rsax.h"
using namespace sim; using namespace rsax;
static const size_t CONT[] = {512, 1024, 1056, 2048, 4096};
static std::unique_ptr<Key> mk(size_t N, oracle::Rsa& k) { switch (N) { case 512: return std::make_unique<TKey<512>>(k); case 1024: return std::make_unique<TKey<1024>>(k); case 1056: return std::make_unique<TKey<1056>>(k); case 2048: return std::make_unique<TKey<2048>>(k); default: return std::make_unique<TKey<4096>>(k); } }
static const std::vector<u64> cheap = {0, 1, 2, 3, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 25, 13, 16, 17, 26, 27, 28};
static void gen(Rng& r, Plan& p, const Tier& t) {
  u64 heavy = r.chance(1, t.thorough ? 8 : 24); u64 rate = r.pick(std::vector<u64>{1, 3, 6}); std::vector<u64> keys; u64 nk = heavy ? 1 : r.range(1, 3);
  if (r.chance(1, 3)) p.push_back(Op("poison", {{"b", r.below(256)}}));
  for (u64 i = 0; i < nk; i++) { u64 k = heavy ? r.pick(std::vector<u64>{4, 5, 7, 8, 9, 10, 19, 6, 0, 11}) : r.pick(cheap); p.push_back(Op("key", {{"i", i}, {"k", k}, {"wide", r.chance(1, 6)}})); }
  p.push_back(Op("entropy", {{"s", r.next() >> 8}}));
  u64 steps = heavy ? r.range(2, 4) : r.range(3, 14), sigs = 0; auto mlen = [&]() -> u64 { switch (r.below(8)) { case 0: return 0; case 1: return 127 + r.below(3); case 2: return 255 + r.below(3); case 3: return r.chance(1, 6) ? 65535 + r.below(3) : r.below(60); case 4: return r.below(3000); default: return r.below(200); } };
  for (u64 s = 0; s < steps; s++) {
    u64 i = r.below(nk), pss = r.below(2), h = r.below(3), who = r.below(3);
    if (heavy && who == 2 && r.chance(1, 2)) who = 0;
    if (r.chance(1, 10)) p.push_back(Op("entropyfault", {{"at", r.below(9)}, {"kind", r.range(1, 3)}, {"arg", r.range(1, 7)}}));
    p.push_back(Op("sign", {{"i", i}, {"pss", pss}, {"h", h}, {"who", who}, {"generic", heavy && r.chance(1, 2)}, {"len", mlen()}, {"d", dataSeed(r)}, {"alt", r.below(2)}})); sigs++;
    u64 v = r.range(1, heavy ? 2 : 4);
    for (u64 q = 0; q < v; q++) p.push_back(Op("verify", {{"sig", sigs - 1 - (r.chance(1, 4) ? r.below(sigs) : 0)}, {"mut", r.chance(rate, 7) ? r.range(1, 17) : 0}, {"x", r.next() >> 20}, {"y", r.next() >> 20}, {"i", i}, {"generic", r.chance(1, heavy ? 2 : 10)}, {"alt", r.below(2)}}));
    if (r.chance(1, 5)) p.push_back(Op("forge", {{"i", i}, {"pss", r.below(2)}, {"h", r.below(3)}, {"kind", r.below(12)}, {"d", dataSeed(r)}, {"x", r.next() >> 20}}));
  }
}
static std::vector<Plan> fixed(const Tier&) {
  std::vector<Plan> v;
  for (u64 k = 0; k < 29; k++) { Plan p{Op("key", {{"i", 0}, {"k", k}}), Op("entropy", {{"s", 99}})}; if (k == 9 || k == 10) { p.push_back(Op("sign", {{"pss", k == 10}, {"h", 0}, {"len", 20}, {"d", 77}})); p.push_back(Op("verify", {{"sig", 0}})); } else
    for (u64 pss : {0, 1}) for (u64 h : {0, 1, 2}) { if ((k >= 4 && k <= 8 || k == 19 || k == 21 || k == 22) && h) continue; p.push_back(Op("sign", {{"pss", pss}, {"h", h}, {"who", 0}, {"len", 20 + h * 100}, {"d", 77}})); p.push_back(Op("verify", {{"sig", 0}})); } v.push_back(p); }
  v.push_back({Op("key", {{"i", 0}, {"k", 11}}), Op("entropy", {{"s", 99}}), Op("sign", {{"pss", 0}, {"h", 0}, {"len", 70000}, {"d", 5}}), Op("verify", {{"sig", 0}}), Op("sign", {{"pss", 0}, {"h", 0}, {"len", 9000000}, {"d", 5}}), Op("verify", {{"sig", 1}})});
  return v;
}
static Bytes mgf(const char* n, const Bytes& seed, size_t len) { Bytes o; for (u32 c = 0; o.size() < len; c++) { Bytes s = seed; for (int i = 3; i >= 0; i--) s.push_back(c >> (8 * i)); Bytes d = oracle::digest(n, s); o.insert(o.end(), d.begin(), d.end()); } o.resize(len); return o; }
static void run(const Plan& plan, Ctx& c) {
  struct K { size_t k; oracle::Rsa* o; std::unique_ptr<Key> direct; std::unique_ptr<Caligo::PublicKey> gpub; std::unique_ptr<Caligo::PrivateKey> gpriv; size_t cont; };
  struct S { u64 i; bool pss; u64 h; Bytes msg, sig; }; std::map<u64, K> keys; std::vector<S> sigs; std::set<Bytes> salts; std::map<u64, EntropyEvent> ef; u64 ecall = 0, eseed = 5; std::unique_ptr<Rng> er = std::make_unique<Rng>(5);
  entropy::install([&](u8* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (u8)er->next(); });
  bool hard = false; entropy::script([&](u64, size_t) { auto it = ef.find(ecall++); if (it == ef.end()) return EntropyEvent{0, 0}; auto e = it->second; ef.erase(it); if (e.kind == 3) { e.arg = 38; hard = true; } c.fault(e.kind == 1 ? "entropy: short read" : e.kind == 2 ? "entropy: interrupted" : "entropy: error"); return e; });
  auto gp = [&](K& k) -> Caligo::PublicKey& { if (!k.gpub) { auto cert = Caligo::parseCertificate(certFor(k.k)); c.check((bool)cert.pubkey, "no-public-key", "certificate of a supported key"); k.gpub = std::move(cert.pubkey); } return *k.gpub; };
  auto gs = [&](K& k, bool pem) -> Caligo::PrivateKey& { if (!k.gpriv) { Bytes d = k.o->derPriv; if (pem) d = oracle::pem(d, "RSA PRIVATE KEY", "\n", 64); k.gpriv = Caligo::parsePrivateKey(d, pem ? Caligo::DataFormat::Pem : Caligo::DataFormat::Der); c.check((bool)k.gpriv, "no-private-key", "private key file of a supported key"); } return *k.gpriv; };
  auto verify = [&](K& k, bool generic, bool alt, bool pss, u64 h, const Bytes& m, const Bytes& sig) { Given s(sig), pm(m); bool r = generic ? gp(k).validateSignature(scheme(pss, h, alt), pm, s) : k.direct->verify(pss, h, pm, s); s.ok(); pm.ok(); c.note(r); return r; };
  auto desc = [&](K& k, bool pss, u64 h) { return std::string(pss ? "PSS " : "PKCS1 ") + HN[h] + " with key " + std::to_string(k.k) + " (" + std::to_string(k.o->bits) + " bits, container " + std::to_string(k.cont) + ")"; };
  for (auto& op : plan) {
    c.step(); u64 q = 0; for (char ch : op.k) q = q * 31 + ch; c.shp(q * 977 + op("k") * 31 + op("mut") * 7919 + op("pss") * 131 + op("h") * 5 + op("who") * 11 + op("kind") * 17 + op("generic") * 19 + op("sig") * 23 + (op("len") > 127) + (op("len") > 255));
    if (op.k == "poison") { alloc::fillPattern((u8)op("b")); continue; }
    if (op.k == "entropy") { er = std::make_unique<Rng>(op("s")); continue; }
    if (op.k == "entropyfault") { ef[op("at")] = {(int)op("kind"), op("arg")}; ecall = 0; continue; }
    if (op.k == "key") { K k; k.k = op("k") % oracle::rsaCount(); k.o = &oracle::rsa(k.k); size_t N = 0; for (size_t x : CONT) if (!N && x >= k.o->bits) N = x; if (op("wide") && N < 2048) N = N == 512 ? 1024 : 2048; k.cont = N; k.direct = mk(N, *k.o); keys[op("i")] = std::move(k); continue; }
    if (op.k == "sign") {
      auto it = keys.find(op("i")); if (it == keys.end()) continue; K& k = it->second; S s{op("i"), op("pss") != 0, op("h") % 3, data(op("d"), op("len")), {}}; size_t ml = k.o->n.size(); if (!fits(ml, s.pss, s.h)) { c.probe("key too small for the scheme"); continue; }
      bool hit = false; if (s.pss ? ml == 2 * HL[s.h] + 2 : ml == 30 + HL[s.h]) { hit = true; c.probe("key exactly large enough"); } (void)hit;
      Bytes ref = s.pss ? s.msg : seqOf(s.msg); bool byOracle = op("who") == 1;
      if (byOracle) { oracle::seedReference(op("d")); s.sig = oracle::rsaSign(*k.o, HN[s.h], s.pss, ref, -1); if (s.sig.empty()) continue; c.probe("signed by the reference"); }
      else {
        for (int tries = 0;; tries++) { hard = false; try {
          if (op("generic")) { Given pm(s.msg); s.sig = gs(k, op("alt")).sign(scheme(s.pss, s.h, op("alt")), pm); pm.ok(); }
          else { Bytes salt(HL[s.h]); if (s.pss) Caligo::generate_random(std::span<u8>(salt)); s.sig = k.direct->sign(s.pss, s.h, s.msg, salt); }
          if (hard && s.pss) c.fail("entropy-failure-ignored", desc(k, s.pss, s.h) + ": signing succeeded although the entropy source failed"); break; }
          catch (const std::exception& e) { c.check(hard, "sign-failed", desc(k, s.pss, s.h) + ": " + e.what()); c.check(tries < 6, "no-progress", "signing keeps failing"); c.probe("signing retried after entropy failure"); } }
        c.check(s.sig.size() == ml, "signature-length", desc(k, s.pss, s.h) + ": " + std::to_string(s.sig.size()) + " bytes for a modulus of " + std::to_string(ml));
        c.check(oracle::rsaVerify(*k.o, HN[s.h], s.pss, ref, s.sig, -1), "rejected-by-reference", desc(k, s.pss, s.h) + ", message of " + std::to_string(s.msg.size()));
        if (s.pss) { Bytes em = oracle::rsaRaw(*k.o, s.sig, false); size_t hl = HL[s.h]; Bytes H(em.end() - hl - 1, em.end() - 1), mask = mgf(HN[s.h], H, em.size() - hl - 1), salt; for (size_t i = mask.size() - hl; i < mask.size(); i++) salt.push_back(em[i] ^ mask[i]); c.check(salts.insert(salt).second, "salt-repeated", desc(k, true, s.h)); c.check(!std::all_of(salt.begin(), salt.end(), [&](u8 b) { return b == salt[0]; }), "salt-constant", desc(k, true, s.h)); c.probe("salt recovered"); }
        if (op("generic")) c.probe("generic private key interface");
      }
      c.check(verify(k, false, false, s.pss, s.h, s.msg, s.sig), "genuine-rejected", desc(k, s.pss, s.h) + (byOracle ? " signed by the reference" : "") + ", message of " + std::to_string(s.msg.size()));
      c.note(s.sig); sigs.push_back(std::move(s));
    } else if (op.k == "verify") {
      if (sigs.empty()) continue; S s = sigs[op("sig") % sigs.size()]; K* k = &keys[s.i]; u64 X = op("x"), Y = op("y"); bool changed = true; const char* what = "unchanged"; u64 genuineKey = s.i; size_t L = s.sig.size();
      switch (op("mut")) {
        case 1: case 2: s.sig[X % L] ^= 1 << (Y % 8); what = "bit flipped in signature"; break;
        case 3: if (s.msg.empty()) s.msg.push_back(0); else s.msg[X % s.msg.size()] ^= 1 << (Y % 8); what = "message altered"; break;
        case 4: s.sig.resize(X % L); what = "signature truncated"; break;
        case 5: s.sig.insert(s.sig.begin(), 1 + X % 40, 0); what = "leading zeroes added"; break;
        case 6: s.sig.insert(s.sig.end(), 1 + X % 600, (u8)Y); what = "signature extended"; break;
        case 7: { Bytes b = oracle::addb(s.sig, k->o->n, L); if (b.empty()) { changed = false; break; } s.sig = b; what = "modulus added to signature"; break; }
        case 8: { auto& o = sigs[Y % sigs.size()]; if (o.sig == s.sig || o.sig.size() != L || (o.i == s.i && o.msg == s.msg && o.pss == s.pss && o.h == s.h)) { changed = false; break; } s.sig = o.sig; what = "signature of another message"; break; }
        case 9: { auto& o = keys[op("i")]; if (!o.o || o.k == k->k) { changed = false; break; } k = &o; what = "other key"; break; }
        case 10: s.h = (s.h + 1 + X % 2) % 3; what = "other hash"; break;
        case 11: s.pss = !s.pss; what = "other scheme"; break;
        case 12: s.sig.assign(L, 0); what = "zero signature"; break;
        case 13: s.sig = k->o->n; what = "signature equal to the modulus"; break;
        case 14: s.sig = oracle::sub(k->o->n, s.sig); what = "negated signature"; break;
        case 15: s.sig.clear(); what = "empty signature"; break;
        case 16: { size_t z = 0; while (z < L && s.sig[z] == 0) z++; if (!z) { s.sig.erase(s.sig.begin()); } else s.sig.erase(s.sig.begin(), s.sig.begin() + z); what = "leading byte removed"; break; }
        case 17: { if (s.msg.empty()) { changed = false; break; } s.msg.pop_back(); what = "message truncated"; break; }
        default: changed = false;
      }
      (void)genuineKey; if (!k->o) continue; bool generic = op("generic") && !(k->o->e != Bytes{1, 0, 1} && op("x") % 8); bool ok = verify(*k, generic, op("alt"), s.pss, s.h, s.msg, s.sig); if (generic) c.probe("generic public key interface");
      if (changed) { c.fault(what); c.check(!ok, "forgery-accepted", std::string(what) + ": " + desc(*k, s.pss, s.h)); } else c.check(ok, "genuine-rejected", desc(*k, s.pss, s.h) + " message of " + std::to_string(s.msg.size()) + (generic ? " through the generic interface" : ""));
    } else if (op.k == "forge") { // signatures with malformed encodings, made with the private key
      auto it = keys.find(op("i")); if (it == keys.end()) continue; K& k = it->second; bool pss = op("pss"); u64 h = op("h") % 3; size_t ml = k.o->n.size(), hl = HL[h]; if (!fits(ml, pss, h) || ml > 200) continue; Bytes msg = data(op("d"), 1 + op("d") % 100); u64 kind = op("kind"), x = op("x"); Bytes em;
      if (pss) { Bytes mh = oracle::digest(HN[h], msg), salt = data(op("d") | 5, hl), m8(8); m8.insert(m8.end(), mh.begin(), mh.end()); m8.insert(m8.end(), salt.begin(), salt.end()); if (kind == 11) m8[x % 8] ^= 1; Bytes H = oracle::digest(HN[h], m8), db(ml - hl - 1); db[ml - hl - 2 - hl] = 1; std::copy(salt.begin(), salt.end(), db.end() - hl);
        size_t ps = ml - 2 * hl - 2; bool did = true;
        if (kind == 0) { if (ps < 2) did = false; else db[1 + x % (ps - 1)] ^= 1; } else if (kind == 1) db[ml - hl - 2 - hl] = 2 + x % 200; else if (kind == 2) { if (ps < 2) did = false; else db[ps - 1] = 1; } else if (kind == 9) db[ml - hl - 2 - hl] = 0;
        Bytes mask = mgf(HN[h], H, db.size()); for (size_t i = 0; i < db.size(); i++) db[i] ^= mask[i]; em = db; em.insert(em.end(), H.begin(), H.end()); em.push_back(0xbc);
        if (kind == 3) em.back() = 0xbd; else if (kind == 4) em.back() = 0xcc; else if (kind == 10) em[ml - 2] ^= 1; else if (kind > 4 && kind != 9 && kind != 11) did = false;
        em[0] &= 0x7f; if (kind == 5) { em[0] |= 0x80; did = true; if (memcmp(em.data(), k.o->n.data(), ml) >= 0) did = false; }
        if (!did) continue;
      } else { static const u8 id[3][19] = {{0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20}, {0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05, 0x00, 0x04, 0x30}, {0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40}};
        Bytes mh = oracle::digest(HN[h], seqOf(msg)); size_t ps = ml - 3 - 19 - hl; em = {0, 1}; em.resize(2 + ps, 0xff); em.push_back(0); em.insert(em.end(), id[h], id[h] + 19); em.insert(em.end(), mh.begin(), mh.end());
        switch (kind) { case 0: em[1] = 2; break; case 1: em[1] = 0; break; case 2: em[2 + x % ps] ^= 1 << (x >> 32) % 8; break; case 3: em[2 + ps] = 1; break; case 4: em[3 + ps + x % 19] ^= 1; break; case 5: em[3 + ps + 19 + x % hl] ^= 1; break; // Bleichenbacher: short padding, trailing garbage
          case 6: { Bytes e2(em.begin(), em.begin() + 2); e2.resize(2 + std::min<size_t>(ps, 8), 0xff); e2.insert(e2.end(), em.begin() + 2 + ps, em.end()); if (e2.size() == ml) continue; while (e2.size() < ml) e2.push_back((u8)x); em = e2; break; }
          case 7: em.assign(ml, 0); em[ml - 1] = 1; break; case 8: { Bytes e2(ml); std::copy(mh.begin(), mh.end(), e2.end() - hl); em = e2; break; } case 9: { u64 h2 = (h + 1) % 3; std::copy(id[h2], id[h2] + 19, em.begin() + 3 + ps); break; } default: continue; } }
      Bytes sig = oracle::rsaRaw(*k.o, em, true); c.fault("malformed encoding signed with the right key"); c.check(!verify(k, x & 1 && k.o->e == Bytes{1, 0, 1}, false, pss, h, msg, sig), "forgery-accepted", "malformed encoding kind " + std::to_string(kind) + ", " + desc(k, pss, h));
    }
  }
  entropy::reset();
}
static void warm() { for (size_t i = 0; i < oracle::rsaCount(); i++) oracle::rsa(i); oracle::seedReference(1); }
sim::Scenario sim::scenario{"C10", gen, run, fixed, warm};
