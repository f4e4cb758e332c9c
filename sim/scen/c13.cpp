// C13: objects damaged on disk or in transit. Built with AddressSanitizer; every use happens on a heap copy of exactly the object's
// size, twice with different contents of fresh memory, with allocations and releases balanced and the memory requested bounded.
#include "ops.h"
using namespace sim; using namespace pki;
enum { CERTD, CERTP, BUNDLEP, KEYD, KEYP, SIG, RECORD, TEXT, POINT, LEAFROOT, SESSION, NKIND };
static const char* KN[] = {"certificate", "certificate (PEM)", "certificate bundle", "private key", "private key (PEM)", "signature", "record", "base64 text", "key exchange value", "damaged issuer", "session parameters"};
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 objs = r.range(1, 3);
  for (u64 o = 0; o < objs; o++) {
    u64 k = r.chance(1, 3) ? CERTD : r.below(NKIND); p.push_back(Op("obj", {{"kind", k}, {"x", r.next() >> 20}, {"n", r.chance(1, 3) ? r.below(20) : r.below(300)}}));
    u64 rounds = r.range(1, 4); for (u64 q = 0; q < rounds; q++) { u64 muts = r.chance(1, 10) ? 0 : r.chance(1, 2) ? 1 : r.range(2, 5); for (u64 i = 0; i < muts; i++) { bool der = k == CERTD || k == CERTP || k == KEYD || k == KEYP || k == BUNDLEP || k == LEAFROOT; p.push_back(Op("mut", {{"m", der && r.chance(2, 3) ? r.range(8, 20) : r.below(8)}, {"x", r.next() >> 20}, {"y", r.next() >> 20}})); } p.push_back(Op("use", {{"x", r.next() >> 20}, {"wrap", r.below(4)}})); if (r.chance(1, 2)) p.push_back(Op("fresh")); }
  }
}
static std::vector<Plan> fixed(const Tier& t) { // systematic: every truncation point, and every length octet set to awkward values
  std::vector<Plan> v; for (u64 k : {CERTD, KEYD}) for (u64 at = 0; at < (t.thorough ? 1400u : 640u); at += 40) { Plan p; p.push_back(Op("obj", {{"kind", k}, {"x", 4242}, {"n", 10}})); for (u64 i = at; i < at + 40; i++) { p.push_back(Op("fresh")); p.push_back(Op("mut", {{"m", 2}, {"x", i}, {"y", 0}})); p.push_back(Op("use", {{"x", 1}})); } v.push_back(p); }
  for (u64 k : {CERTD, KEYD}) for (u64 node = 0; node < 60; node += 4) { Plan p; p.push_back(Op("obj", {{"kind", k}, {"x", 4242}, {"n", 10}})); for (u64 i = node; i < node + 4; i++) for (u64 y = 0; y < 12; y++) { p.push_back(Op("fresh")); p.push_back(Op("mut", {{"m", 8}, {"x", i}, {"y", y}})); p.push_back(Op("use", {{"x", 1}})); } v.push_back(p); }
  for (u64 k : {CERTD, KEYD}) for (u64 leaf = 0; leaf < 40; leaf += 4) { Plan p; p.push_back(Op("obj", {{"kind", k}, {"x", 4242}, {"n", 10}})); for (u64 i = leaf; i < leaf + 4; i++) for (u64 y = 0; y < 4; y++) { p.push_back(Op("fresh")); p.push_back(Op("mut", {{"m", 17}, {"x", i}, {"y", y}})); p.push_back(Op("use", {{"x", 1}})); } v.push_back(p); }
  for (u64 date : {0, 1}) for (u64 k = 1; k < 14; k++) { Plan p; p.push_back(Op("obj", {{"kind", CERTD}, {"x", 4242}, {"n", 10}})); for (u64 o = 0; o < 14; o++) { p.push_back(Op("fresh")); p.push_back(Op("mut", {{"m", 20}, {"x", date}, {"y", k * 1000 + o}})); p.push_back(Op("use", {{"x", 1}})); } v.push_back(p); }
  for (u64 leaf = 0; leaf < 40; leaf++) { Plan p; p.push_back(Op("obj", {{"kind", CERTD}, {"x", 4242}, {"n", 10}})); for (u64 y = 1; y < 16; y++) for (u64 m : {18, 19}) { p.push_back(Op("fresh")); p.push_back(Op("mut", {{"m", m}, {"x", leaf}, {"y", y * 1000}})); p.push_back(Op("use", {{"x", 1}})); } v.push_back(p); }
  return v;
}
struct Node { size_t at, h, len; };
static void walk(const Bytes& d, size_t from, size_t to, std::vector<Node>& out, int depth = 0) { size_t p = from; while (p + 2 <= to && out.size() < 400) { size_t l = d[p + 1], h = 2; if (l & 0x80) { size_t n = l & 0x7f; if (n > 4 || p + 2 + n > to) return; l = 0; for (size_t i = 0; i < n; i++) l = l << 8 | d[p + 2 + i]; h += n; } if (p + h + l > to) return; out.push_back({p, h, l}); u8 t = d[p]; if ((t == 0x30 || t == 0x31 || (t & 0xE0) == 0xA0) && depth < 12) walk(d, p + h, p + h + l, out, depth + 1); else if (t == 3 && l > 3 && d[p + h] == 0 && d[p + h + 1] == 0x30) walk(d, p + h + 1, p + h + l, out, depth + 1); p += h + l; } }
static Bytes mutate(Bytes d, u64 m, u64 x, u64 y, const Bytes& other) {
  Rng r(mix(x, y)); std::vector<Node> n; if (m >= 8) { walk(d, 0, d.size(), n); if (n.empty()) m = m % 8; }
  auto at = [&](size_t k) { return d.empty() ? 0 : x % k; }; auto N = [&]() -> Node { return n[x % n.size()]; }; auto cut = [&](Node a) { return Bytes(d.begin() + a.at, d.begin() + a.at + a.h + a.len); };
  switch (m) {
    case 0: if (!d.empty()) d[at(d.size())] ^= 1 << (y % 8); break; case 1: if (!d.empty()) d[at(d.size())] = (u8)y; break; case 2: d.resize(x % (d.size() + 1)); break; case 3: d.insert(d.end(), 1 + y % 64, (u8)x); break;
    case 4: { Bytes b = data(y, 1 + r.below(40)); d.insert(d.begin() + x % (d.size() + 1), b.begin(), b.end()); break; } case 5: if (!d.empty()) { size_t a = at(d.size()), k = std::min<size_t>(d.size() - a, 1 + y % 30); d.erase(d.begin() + a, d.begin() + a + k); } break;
    case 6: if (!d.empty() && !other.empty()) { size_t a = at(d.size()); d.resize(a); d.insert(d.end(), other.begin() + y % other.size(), other.end()); } break; case 7: d = data(x, y % 700); break;
    case 8: { Node a = N(); static const u8 v[][6] = {{0}, {1}, {0x7f}, {0x80}, {0x81, 0xff}, {0x82, 0xff, 0xff}, {0x84, 0xff, 0xff, 0xff, 0xff}, {0x84, 0x7f, 0xff, 0xff, 0xff}, {0xff}, {0x83, 1, 0, 0}, {0x88}, {0x89}}; static const size_t l[] = {1, 1, 1, 1, 2, 3, 5, 5, 1, 4, 1, 1}; size_t k = y % 12; Bytes nb(v[k], v[k] + l[k]); if (k == 10) nb.insert(nb.end(), 8, 0xFF); if (k == 11) nb.insert(nb.end(), 9, 0x00); d.erase(d.begin() + a.at + 1, d.begin() + a.at + a.h); d.insert(d.begin() + a.at + 1, nb.begin(), nb.end()); break; }
    case 9: { Node a = N(); d[a.at + a.h - 1] += y & 1 ? 1 : 255; break; } case 10: { Node a = N(); static const u8 t[] = {1, 2, 3, 4, 5, 6, 12, 19, 23, 24, 48, 49, 160, 161, 163, 0, 255}; d[a.at] = t[y % 17]; break; }
    case 11: { Node a = N(); d.erase(d.begin() + a.at, d.begin() + a.at + a.h + a.len); break; } case 12: { Node a = N(); Bytes b = cut(a); d.insert(d.begin() + a.at, b.begin(), b.end()); break; }
    case 13: { Node a = N(); std::fill(d.begin() + a.at + a.h, d.begin() + a.at + a.h + a.len, (u8)y); break; } case 14: { Node a = N(); Bytes b = cut(n[y % n.size()]); d.erase(d.begin() + a.at, d.begin() + a.at + a.h + a.len); d.insert(d.begin() + a.at, b.begin(), b.end()); break; }
    default: { // a well-formed change: replace a leaf's contents by others and repair all enclosing lengths
      std::vector<size_t> leaf; for (size_t i = 0; i < n.size(); i++) if (n[i].len < 600 && d[n[i].at] != 0x30 && d[n[i].at] != 0x31 && (d[n[i].at] & 0xE0) != 0xA0) leaf.push_back(i); if (m == 20) { std::vector<size_t> dates; for (size_t i : leaf) if (d[n[i].at] == 0x17 || d[n[i].at] == 0x18) dates.push_back(i); if (dates.empty()) break; leaf = dates; m = 18; } if (leaf.empty()) break; Node a = n[leaf[x % leaf.size()]]; static const std::vector<size_t> L = {0, 1, 2, 3, 12, 13, 15, 16, 20, 127, 128, 129, 255, 256, 513, 600}; Bytes b = data(y, L[r.below(L.size())]); if (m == 16) { b = Bytes(d.begin() + a.at + a.h, d.begin() + a.at + a.h + a.len); if (b.empty()) break; if (r.chance(1, 2)) b.resize(r.below(b.size())); else b[r.below(b.size())] = (u8)(r.chance(1, 2) ? '0' + r.below(12) : r.next()); }
      if (m == 18 || m == 19) { b = Bytes(d.begin() + a.at + a.h, d.begin() + a.at + a.h + a.len); size_t p = y % (b.size() + 1), k = std::min<size_t>(y / 1000 % 20, b.size() - p); Bytes piece(b.begin() + p, b.begin() + p + k); if (m == 18) b.erase(b.begin() + p, b.begin() + p + k); else b.insert(b.begin() + p, piece.begin(), piece.end()); } // part of the contents missing, or twice
      bool last = m == 17; if (last) { b = Bytes(d.begin() + a.at + a.h, d.begin() + a.at + a.h + a.len); b.resize(std::min<size_t>(b.size(), y % 4)); } // this element, cut short, is the last one of everything it is in
      // rebuild from the inside out
      Bytes enc{d[a.at]}; auto len = [](size_t l) { Bytes o; if (l < 128) o = {(u8)l}; else if (l < 256) o = {0x81, (u8)l}; else o = {0x82, (u8)(l >> 8), (u8)l}; return o; }; Bytes q = len(b.size()); enc.insert(enc.end(), q.begin(), q.end()); enc.insert(enc.end(), b.begin(), b.end()); size_t s = a.at, e = a.at + a.h + a.len;
      std::vector<Node> up; for (auto& k : n) if (k.at < a.at && k.at + k.h + k.len >= e) up.push_back(k); std::sort(up.begin(), up.end(), [](auto& p, auto& q) { return p.at > q.at; });
      for (auto& k : up) { Bytes c2(d.begin() + k.at + k.h, d.begin() + s); c2.insert(c2.end(), enc.begin(), enc.end()); if (!last) c2.insert(c2.end(), d.begin() + e, d.begin() + k.at + k.h + k.len); Bytes o{d[k.at]}; q = len(c2.size()); o.insert(o.end(), q.begin(), q.end()); o.insert(o.end(), c2.begin(), c2.end()); enc = o; s = k.at; e = k.at + k.h + k.len; }
      Bytes o(d.begin(), d.begin() + s); o.insert(o.end(), enc.begin(), enc.end()); if (!last) o.insert(o.end(), d.begin() + e, d.end()); d = o; }
  }
  return d;
}
using Exact = Placed;
static ops::Shared sh; static Bytes rootDer, leafDer, leafSig; static std::unique_ptr<rsax::TKey<1024>> key1024;
static void describe(Bytes& o, const Caligo::x509certificate& x) { ops::put(o, x.derCert); if (x.derCert.empty()) return; ops::put(o, x.subject); ops::put(o, x.issuer); ops::num(o, x.validity_start); ops::num(o, x.validity_end); ops::put(o, x.serialNumber.as_bytes()); ops::num(o, (bool)x.pubkey); for (auto& f : x.fqdns) ops::put(o, f); }
static bool contains(const Bytes& hay, std::span<const u8> n) { return std::search(hay.begin(), hay.end(), n.begin(), n.end()) != hay.end(); }
// uses the object the way an application would; everything observable goes into the returned bytes
static Bytes use(Ctx& c, u64 kind, const Bytes& d, u64 x, bool intact) {
  Bytes o; Rng r(x); auto trust = [&](std::vector<Caligo::x509certificate>& v, const char* what) { bool t = Caligo::Truststore::Instance().trust(v, 1600000000); ops::num(o, t); return t; };
  auto useKey = [&](const Caligo::PublicKey* k) { if (!k) return; for (int i = 0; i < 2; i++) { static const size_t L[] = {0, 1, 64, 127, 128, 129, 256, 511, 512, 513, 700}; Exact sig(data(r.next(), L[r.below(11)])); ops::num(o, k->validateSignature((Caligo::Tls13SignatureScheme)(r.chance(1, 6) ? r.below(0x900) : (u64)rsax::scheme(r.chance(1, 2), r.below(3))), data(5, 20), sig.s())); } };
  switch (kind) {
    case CERTD: case CERTP: { Exact in(d); auto cert = Caligo::parseCertificate(in.s(), kind == CERTP ? Caligo::DataFormat::Pem : Caligo::DataFormat::Der); describe(o, cert); if (r.chance(1, 3)) useKey(cert.pubkey.get()); if (r.chance(1, 4)) { auto iss = Caligo::parseCertificate(rootDer); ops::num(o, cert.verify(iss)); if (cert.pubkey) ops::num(o, iss.verify(cert)); } std::vector<Caligo::x509certificate> v; v.push_back(std::move(cert)); Bytes der = v[0].derCert; if (trust(v, "leaf")) { Layout L = layout(leafDer); std::span<const u8> all(leafDer); size_t hl, h = hdr(leafDer, L.tbs0, hl); c.check(contains(der, all.subspan(L.tbs0 + h, L.tbs1 - L.tbs0 - h)) && contains(der, all.subspan(L.sig0, L.sig1 - L.sig0)), "damaged-certificate-trusted", "a certificate that was altered is reported as trusted"); if (!intact) c.probe("harmlessly damaged certificate still trusted"); } break; }
    case BUNDLEP: { Exact in(d); auto v = Caligo::parseCertificatesPem(in.s()); ops::num(o, v.size()); for (auto& q : v) describe(o, q); break; }
    case KEYD: case KEYP: { Exact in(d); auto k = Caligo::parsePrivateKey(in.s(), kind == KEYP ? Caligo::DataFormat::Pem : Caligo::DataFormat::Der); ops::num(o, (bool)k); if (k && r.chance(1, 5)) { u64 h = r.below(3); bool pss = r.chance(1, 2); entropy::reset(); u64 pos = 0; entropy::install([&](u8* p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (u8)(mix(3, pos++) >> 24); }); try { ops::put(o, k->sign(rsax::scheme(pss, h), data(7, 30))); } catch (...) { entropy::reset(); throw; } entropy::reset(); c.probe("signed with a damaged key"); } break; }
    case SIG: { Exact in(d); u64 h = r.below(3); bool pss = r.chance(1, 2); ops::num(o, key1024->verify(pss, h, leafSig, in.s())); auto cert = Caligo::parseCertificate(rootDer); ops::num(o, cert.pubkey->validateSignature(rsax::scheme(pss, h), leafSig, in.s())); break; }
    case RECORD: { Bytes key = data(51, r.chance(1, 2) ? 16 : 32), iv = data(52, 12); rec::Gcm g(key, iv); Exact in(d), aad(data(x, r.below(40))); std::array<u8, 16> tag; Bytes t = data(r.next(), 16); memcpy(tag.data(), t.data(), 16); auto [pt, ok] = g.dec(in.s(), aad.s(), tag); ops::put(o, pt); ops::num(o, ok); c.check(!ok, "damaged-record-accepted", "a record with an arbitrary tag was accepted"); rec::Ctr q(key, data(53, 16), key.size() == 32); Bytes w = d; q.dec(w); ops::put(o, w); break; }
    case TEXT: { Exact in(d); ops::put(o, Caligo::base64d(std::string_view((const char*)in.p, in.n))); break; }
    case POINT: { Exact in(d); Caligo::ec_value u{Caligo::bignum<256>(in.s())}, k{rsax::bn<256>(data(55, 32))}; ops::put(o, Caligo::X25519(k, u).as_bytes()); break; }
    case LEAFROOT: { Exact in(d); auto cert = Caligo::parseCertificate(in.s()); describe(o, cert); if (cert.derCert.empty()) break; auto leaf = Caligo::parseCertificate(leafDer); ops::num(o, leaf.verify(cert)); Caligo::Truststore::Instance().addCertificate(std::move(cert)); std::vector<Caligo::x509certificate> v; v.push_back(std::move(leaf)); trust(v, "issuer"); break; }
    default: { size_t a = d.empty() ? 0 : d[0] % 40, b = d.size() < 2 ? 0 : d[1] % 40; Exact k(data(x, a)), iv(data(x + 1, b)); auto attempt = [&](auto f) { try { f(); ops::num(o, 1); } catch (const std::exception&) { ops::num(o, 2); c.probe("bad session parameters refused"); } }; Bytes m = d;
      attempt([&] { Caligo::GCM<Caligo::AES<128>> g(Caligo::key_iv_pair<Caligo::AES<128>>(k.s(), iv.s())); auto [ct, tag] = g.Encrypt(d, d); ops::put(o, ct); auto [pt, ok] = g.Decrypt(d, d, tag); ops::put(o, pt); }); attempt([&] { Caligo::GCM<Caligo::AES<256>> g(Caligo::key_iv_pair<Caligo::AES<256>>(k.s(), iv.s())); auto [ct, tag] = g.Encrypt(d, d); ops::put(o, ct); });
      attempt([&] { Caligo::CTR<Caligo::AES<128>> g(Caligo::key_iv_pair<Caligo::AES<128>>(k.s(), iv.s())); g.Encrypt(m); ops::put(o, m); }); attempt([&] { Caligo::CTR<Caligo::AES<256>> g(Caligo::key_iv_pair<Caligo::AES<256>>(k.s(), iv.s())); g.Decrypt(m); ops::put(o, m); }); attempt([&] { ChaCha20 g(k.s(), iv.s()); g.Encrypt(m); ops::put(o, m); }); }
  }
  return o; }
static void run(const Plan& plan, Ctx& c) {
  ops::setup(sh, 1); rootDer = sh.roots[0].der; Op lo("cert", {{"name", 4000}, {"issuer", 1}, {"key", 25}, {"sign", sh.roots[0].key}, {"nb", off(1500000100)}, {"na", off(1700000000)}, {"hash", 0}, {"ver", 3}, {"serial", 77}}); leafDer = mint(lo).der; leafSig = data(56, 40); key1024 = std::make_unique<rsax::TKey<1024>>(oracle::rsa(0));
  Bytes cur, base; u64 kind = CERTD, muts = 0; std::vector<u64> done; bool have = false;
  for (auto& op : plan) { c.step(); u64 k = 0; for (char q : op.k) k = k * 31 + q; c.shp(k * 977 + op("kind") * 31 + op("m") * 7919 + op("x") % 211);
    if (op.k == "obj") { kind = op("kind") % NKIND; u64 x = op("x"); have = true; muts = 0; oracle::seedReference(x); switch (kind) { case CERTD: case CERTP: base = leafDer; break; case LEAFROOT: base = rootDer; break; case BUNDLEP: { base.clear(); for (u64 i = 0; i < 1 + x % 3; i++) { Bytes p = oracle::pem(i % 2 ? leafDer : rootDer); base.insert(base.end(), p.begin(), p.end()); } break; } case KEYD: case KEYP: base = oracle::rsa(x & 1 ? 11 : 25).derPriv; break; case SIG: base = oracle::rsaSign(oracle::rsa(x & 1 ? 0 : 1), rsax::HN[x >> 1 & 1], x >> 2 & 1, leafSig); break; case TEXT: { std::string s = oracle::base64(data(x, op("n")), x & 1, "+/"); base.assign(s.begin(), s.end()); break; } case POINT: base = data(x, 32); break; default: base = data(x, op("n")); } cur = base; }
    else if (!have) continue;
    else if (op.k == "fresh") { cur = base; muts = 0; }
    else if (op.k == "mut") { Bytes before = cur; cur = mutate(cur, op("m") % 21, op("x"), op("y"), leafDer); if (cur.size() > 20000) cur.resize(20000); if (cur != before) { muts++; static const char* mn[] = {"bit flipped", "byte replaced", "truncated", "extended", "bytes inserted", "bytes removed", "spliced", "replaced by arbitrary bytes", "length field edited", "length off by one", "tag edited", "element removed", "element duplicated", "element overwritten", "element exchanged", "contents replaced", "contents edited", "cut inside an element, lengths repaired", "part of an element removed, lengths repaired", "part of an element doubled, lengths repaired", "part of a date removed, lengths repaired"}; c.fault(mn[op("m") % 21]); } }
    else if (op.k == "use") {
      Bytes d = cur; if (kind == CERTP || kind == KEYP) { d = oracle::pem(cur, kind == KEYP ? "RSA PRIVATE KEY" : "CERTIFICATE"); if (op("wrap") == 1 && !d.empty()) d.resize(op("x") % (d.size() + 1)); if (op("wrap") == 2) { std::string s((char*)d.data(), d.size()); auto e = s.find("-----END"); if (e != std::string::npos) s.erase(op("x") & 1 ? 0 : e, op("x") & 1 ? s.find('\n') : std::string::npos); d.assign(s.begin(), s.end()); } if (op("wrap") == 3) { size_t at = op("x") % (d.size() + 1); std::rotate(d.begin(), d.begin() + at, d.end()); } }
      std::vector<std::pair<int, Bytes>> res; std::string what = std::string(KN[kind]) + " of " + std::to_string(d.size()) + " bytes after " + std::to_string(muts) + " alterations";
      for (int rep = 0; rep < 3; rep++) { alloc::fillPattern(rep == 1 ? 0x00 : rep == 2 ? 0xFF : 0xA5); if (kind == LEAFROOT) { Caligo::Truststore::Instance().addCertificate(Caligo::parseCertificate(rootDer)); } int64_t live = alloc::live(); u64 req = alloc::requested(); std::pair<int, Bytes> q{0, {}};
        try { q.second = use(c, kind, d, op("x"), muts == 0); } catch (const Violation&) { throw; } catch (const std::bad_alloc&) { c.fail("memory-exhausted", what + ": an enormous amount of memory was requested"); } catch (const std::exception& e) { q.first = 1; ops::put(q.second, std::string(e.what())); c.probe("refused with an exception"); } catch (...) { c.fail("foreign-exception", what); }
        req = alloc::requested() - req; c.check(req <= (96u << 20) + 4000 * d.size(), "unbounded-work", what + ": " + std::to_string(req) + " bytes of memory requested"); int64_t held = q.second.capacity() ? 1 : 0; int64_t extra = alloc::live() - live - held; c.check(kind == LEAFROOT || extra <= 0 || rep == 0, "leak", what + ": " + std::to_string(extra) + " blocks not released"); res.push_back(std::move(q)); }
      for (size_t i = 1; i < res.size(); i++) c.check(res[i] == res[0], "outcome-differs", what + ": the same bytes gave different outcomes (uninitialised or absent data was used): " + firstDiff(res[i].second, res[0].second)); alloc::fillPattern(0xA5); c.note(res[0].second); c.note(res[0].first); c.probe(KN[kind]); }
  }
}
static void warm() { for (size_t i = 0; i < oracle::rsaCount(); i++) oracle::rsa(i); }
sim::Scenario sim::scenario{"C13", gen, run, fixed, warm};
