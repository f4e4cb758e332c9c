// Self-contained operations on objects of their own. prepare() makes the inputs (reference code only); the returned function calls
// the library and returns everything it observed.
#pragma once
#include "rsax.h"
#include "records.h"
#include "pki.h"
#include <caligo/md5.h>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/sha3.h>
#include <caligo/crc.h>
#include <caligo/hash.h>
#include <caligo/chacha20.h>
#include <caligo/hkdf.h>
#include <caligo/x25519.h>
#include <caligo/base64.h>
namespace ops {
using namespace sim;
using Fn = std::function<Bytes()>;
inline void put(Bytes& o, std::span<const u8> d) { u64 n = d.size(); o.insert(o.end(), (u8*)&n, (u8*)&n + 8); o.insert(o.end(), d.begin(), d.end()); }
inline void put(Bytes& o, const std::string& d) { put(o, std::span<const u8>((const u8*)d.data(), d.size())); }
template <size_t N> void put(Bytes& o, const std::array<u8, N>& d) { put(o, std::span<const u8>(d)); }
inline void num(Bytes& o, u64 v) { o.insert(o.end(), (u8*)&v, (u8*)&v + 8); }
template <class H> Bytes dig(const Bytes& d, u64 seed) { Rng r(seed); H h; Bytes o; size_t p = 0; while (p < d.size()) { size_t n = std::min<size_t>(d.size() - p, r.below(90)); h.add(std::span<const u8>(d).subspan(p, n)); p += n; if (r.chance(1, 6)) { std::array<u8, H::hashsize> a = h; put(o, a); } } std::array<u8, H::hashsize> a = h; put(o, a); put(o, std::string(h)); return o; }
inline Bytes digest(u64 alg, const Bytes& d, u64 seed) { using namespace Caligo; switch (alg) { case 0: return dig<MD5>(d, seed); case 1: return dig<SHA1>(d, seed); case 2: return dig<SHA2<224>>(d, seed); case 3: return dig<SHA2<256>>(d, seed); case 4: return dig<SHA2<384>>(d, seed); case 5: return dig<SHA2<512>>(d, seed); case 6: return dig<SHA3<224>>(d, seed); case 7: return dig<SHA3<256>>(d, seed); case 8: return dig<SHA3<384>>(d, seed); case 9: return dig<SHA3<512>>(d, seed); default: return dig<CRC32>(d, seed); } }
template <class H> Bytes kdf(const Bytes& k, const Bytes& t, size_t len) { using namespace Caligo; Bytes o; put(o, HMAC<H>(t, k)); auto prk = HKDF_Extract<H>(k, t); put(o, prk); put(o, HKDF_Expand<H>(prk, t, len)); auto hs = HKDF_HandshakeSecret<H>(k); auto th = H(std::span<const u8>(t)).data(); put(o, hs.get_finished_key(th, true)); auto kp = hs.template get_key_iv<AES<128>>(th, false, true); put(o, kp.key); put(o, kp.iv); auto ms = HKDF_MasterSecret<H>(hs); auto kq = ms.template get_key_iv<AES<256>>(th, true, false); put(o, kq.key); put(o, kq.iv); return o; }
enum { DIGEST, NAMED, GCM_, CTR_, CHACHA, KDF, X, RSA_, BASE64, CERT, TRUST, VERIFY, RANDOM, NUMBER, PRIVKEY, STOREGET, BUNDLEPARSE, REFUSED, KINDS };
inline const char* name(u64 k) { static const char* n[] = {"digest", "named digest", "AES-GCM", "AES-CTR", "ChaCha20", "HMAC/HKDF", "X25519", "RSA signing", "base64", "certificate parsing", "trust decision", "signature verification with a shared key", "random draw", "random number", "private key parsing", "trust store lookup", "bundle parsing", "refused input"}; return n[k % KINDS]; }
struct Shared { std::vector<std::unique_ptr<rsax::Key>> keys; std::vector<pki::Cert> roots; std::vector<std::string> names; };
inline Fn prepare(const Op& op, Shared* sh) {
  u64 kind = op("kind") % KINDS, seed = op("seed"); size_t n = op("n"); Rng r(seed); Bytes d = data(r.next() | 5, n);
  switch (kind) {
    case DIGEST: { u64 alg = op("alg") % 11; return [=] { return digest(alg, d, seed); }; }
    case NAMED: { static const char* nm[] = {"md5", "sha1", "sha224", "sha2-256", "sha384", "sha512", "sha3-224", "sha3-256", "sha3-384", "sha3-512"}; std::string s = nm[op("alg") % 10]; return [=] { Caligo::Hash h(s); Bytes o; size_t half = d.size() / 2; h.add(std::span<const u8>(d).first(half)); put(o, h.data()); h.add(std::span<const u8>(d).subspan(half)); put(o, h.data()); put(o, std::string(h)); num(o, h.hashsize()); return o; }; }
    case GCM_: { Bytes key = data(r.next() | 5, r.chance(1, 2) ? 16 : 32), iv = data(r.next() | 5, r.pick(std::vector<size_t>{12, 12, 8, 16, 20})); return [=] { rec::Gcm a(key, iv), b(key, iv); Bytes o; for (int i = 0; i < 2; i++) { auto [ct, tag] = a.enc(d, key); put(o, ct); put(o, tag); auto [pt, ok] = b.dec(ct, key, tag); put(o, pt); num(o, ok); } return o; }; }
    case CTR_: { bool big = r.chance(1, 2); Bytes key = data(r.next() | 5, big ? 32 : 16), iv = data(r.next() | 5, 16); return [=] { rec::Ctr a(key, iv, big), b(key, iv, big); Bytes o; for (int i = 0; i < 2; i++) { Bytes x = d; a.enc(x); put(o, x); b.dec(x); put(o, x); } return o; }; }
    case CHACHA: { Bytes key = data(r.next() | 5, 32), iv = data(r.next() | 5, 12); return [=] { ChaCha20 a(key, iv), b(key, iv); Bytes o; for (int i = 0; i < 2; i++) { Bytes x = d; a.Encrypt(x); put(o, x); b.Decrypt(x); put(o, x); } return o; }; }
    case KDF: { Bytes k = data(r.next() | 5, 1 + r.below(150)); u64 h = op("alg") % 3; size_t len = 1 + r.below(100); return [=] { return h == 0 ? kdf<Caligo::SHA2<256>>(k, d, len) : h == 1 ? kdf<Caligo::SHA2<384>>(k, d, len) : kdf<Caligo::SHA2<512>>(k, d, len); }; }
    case X: { Bytes k = data(r.next() | 5, 32), u = data(r.next() | 5, 32); return [=] { Caligo::ec_value K{rsax::bn<256>(k)}, U{rsax::bn<256>(u)}; Bytes o; put(o, Caligo::X25519(K, U).as_bytes()); return o; }; }
    case RSA_: { static const size_t ks[] = {25, 13, 11, 12}; u64 a = op("alg"); size_t ki = a < 8 ? ks[a % 4] : ks[r.below(4)]; bool pss = ki == 13 && r.chance(1, 2); Bytes salt = data(r.next() | 5, 32); return [=] { std::unique_ptr<rsax::Key> k; if (ki == 13) k = std::make_unique<rsax::TKey<544>>(oracle::rsa(13)); else k = std::make_unique<rsax::TKey<512>>(oracle::rsa(ki)); Bytes o, s = k->sign(pss, 0, d, salt); put(o, s); num(o, k->verify(pss, 0, d, s)); if (!s.empty()) s[0] ^= 1; num(o, k->verify(pss, 0, d, s)); return o; }; }
    case BASE64: { u64 f = r.next(); return [=] { std::string s = Caligo::base64(d, f & 1, f & 2, (Caligo::Base64CharSet)((f >> 2) % 3)); Bytes o; put(o, s); put(o, Caligo::base64d(s)); return o; }; }
    case CERT: { Op c("cert", {{"name", r.below(500)}, {"issuer", r.below(500)}, {"key", r.pick(std::vector<u64>{0, 1, 4, 5, 6})}, {"nb", pki::off(r.below(2000000000))}, {"na", pki::off(r.below(4000000000ULL))}, {"hash", r.below(3)}, {"serial", r.next() >> 20}, {"ver", 3}}); Bytes der = pki::mint(c).der; bool pem = r.chance(1, 2); Bytes in = pem ? oracle::pem(der) : der; return [=] { auto x = Caligo::parseCertificate(in, pem ? Caligo::DataFormat::Pem : Caligo::DataFormat::Der); Bytes o; put(o, x.derCert); put(o, x.subject); put(o, x.issuer); num(o, x.validity_start); num(o, x.validity_end); put(o, x.serialNumber.as_bytes()); num(o, x.fqdns.size()); num(o, (bool)x.pubkey); return o; }; }
    case TRUST: { if (!sh || sh->roots.empty()) return {}; auto& root = sh->roots[r.below(sh->roots.size())]; Op c("cert", {{"name", 1000 + r.below(500)}, {"issuer", root.name}, {"key", 25}, {"sign", r.chance(1, 4) ? 23 : (u64)root.key}, {"nb", pki::off(1500000100)}, {"na", pki::off(1700000000)}, {"hash", r.below(3)}, {"ver", 3}}); Bytes der = pki::mint(c).der; u64 t = r.chance(1, 5) ? 1800000000 : 1600000000; return [=] { std::vector<Caligo::x509certificate> v; v.push_back(Caligo::parseCertificate(der)); Bytes o; num(o, Caligo::Truststore::Instance().trust(v, t)); return o; }; }
    case VERIFY: { if (!sh || sh->keys.empty()) return {}; oracle::seedReference(r.next()); bool pss = r.chance(1, 2); Bytes sig = oracle::rsaSign(oracle::rsa(13), "sha256", pss, d), m = d; if (!pss) sig = oracle::rsaSign(oracle::rsa(13), "sha256", false, rsax::seqOf(d)); if (r.chance(1, 3)) sig[r.below(sig.size())] ^= 4; auto* k = sh->keys[0].get(); return [=] { Bytes o; num(o, k->verify(pss, 0, m, sig)); return o; }; }
    case RANDOM: return [=] { Bytes b(n), o; Caligo::generate_random(std::span<u8>(b)); put(o, b); auto v = Caligo::bignum<256>::random(); put(o, v.as_bytes()); return o; };
    case NUMBER: return [=] { Bytes o; auto p = Caligo::bignum<544>::random(); put(o, p.as_bytes()); auto k = Caligo::ec_value::random_private_key(); put(o, k.as_bytes()); return o; };
    case PRIVKEY: { size_t ki = op("alg") % 2 ? 25 : 11; Bytes der = oracle::rsa(ki).derPriv; bool pem = r.chance(1, 2); Bytes in = pem ? oracle::pem(der, "RSA PRIVATE KEY") : der; return [=] { auto k = Caligo::parsePrivateKey(in, pem ? Caligo::DataFormat::Pem : Caligo::DataFormat::Der); Bytes o; auto* q = dynamic_cast<Caligo::RsaPrivateKey*>(k.get()); num(o, q != nullptr); if (q) { put(o, q->privkey.n.as_bytes()); put(o, q->privkey.d.as_bytes()); } return o; }; }
    case STOREGET: { if (!sh || sh->names.empty()) return {}; std::string nm = r.chance(1, 4) ? "nobody" : sh->names[r.below(sh->names.size())]; return [=] { auto g = Caligo::Truststore::Instance().get(nm); Bytes o; num(o, g.has_value()); if (g) { put(o, (*g)->derCert); put(o, (*g)->subject); } return o; }; }
    case REFUSED: { u64 what = op("alg") % 9; Op cc("cert", {{"name", r.below(500)}, {"issuer", r.below(500)}, {"key", 0}, {"nb", pki::off(0)}, {"na", pki::off(4000000000LL)}, {"serial", r.next() >> 20}, {"ver", 3}}); Bytes der = pki::mint(cc).der, pk = oracle::rsa(25).derPriv, key = data(r.next() | 5, 16), iv = data(r.next() | 5, 12); u64 x = r.next() >> 8; size_t cut = x % der.size();
      return [=] { Bytes o; auto t = [&](auto f) { try { f(); put(o, std::string("accepted")); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { put(o, std::string(e.what())); } };
        switch (what) {
          case 0: t([&] { Caligo::parseCertificate(std::span<const u8>(der).first(cut)); }); break;
          case 1: t([&] { Bytes b = der; b[cut] ^= 1 + x % 255; auto c = Caligo::parseCertificate(b); put(o, c.subject); put(o, c.issuer); num(o, c.validity_end); }); break;
          case 2: t([&] { Caligo::parsePrivateKey(std::span<const u8>(pk).first(cut % pk.size())); }); break;
          case 3: t([&] { Caligo::Hash h("no such digest " + std::to_string(x)); }); break;
          case 4: { rec::Gcm g(key, iv); std::array<u8, 16> tag{}; auto [p, ok] = g.dec(d, key, tag); put(o, p); num(o, ok); break; }
          case 5: t([&] { Bytes k = data(x | 5, x % 40); ChaCha20 c(k, iv); }); break;
          case 6: { std::string s((char*)der.data(), cut); put(o, Caligo::base64d(s)); break; }
          case 7: t([&] { rsax::TKey<512> k(oracle::rsa(25)); put(o, k.sign(true, 2, d, data(x | 5, 64))); }); break;
          default: t([&] { rec::Ctr c(key, data(5, x % 30), false); }); }
        return o; }; }
    default: { std::string s; u64 k = 1 + r.below(3); for (u64 i = 0; i < k; i++) { Op c("cert", {{"name", r.below(500)}, {"issuer", r.below(500)}, {"key", r.pick(std::vector<u64>{0, 1, 5})}, {"nb", pki::off(0)}, {"na", pki::off(r.below(4000000000ULL))}, {"serial", r.next() >> 20}, {"ver", 3}}); Bytes p = oracle::pem(pki::mint(c).der); s.append((char*)p.data(), p.size()); } return [=] { auto v = Caligo::parseCertificatesPem({(const u8*)s.data(), s.size()}); Bytes o; num(o, v.size()); for (auto& x : v) { put(o, x.derCert); put(o, x.subject); num(o, x.validity_end); } return o; }; }
  }
}
// loads the process-wide store with a few roots and makes the shared keys
inline void setup(Shared& sh, u64 roots) {
  for (u64 i = 0; i < roots; i++) { Op c("cert", {{"name", 1 + i}, {"issuer", 1 + i}, {"key", i % 2 ? 24u : 1u}, {"nb", pki::off(1500000000)}, {"na", pki::off(1900000000)}, {"ver", 3}, {"ca", 2}}); sh.roots.push_back(pki::mint(c)); }
  std::vector<const pki::Cert*> p; for (auto& x : sh.roots) p.push_back(&x); files::script = files::Script(); files::script.active = true; files::script.path = pki::BUNDLE; files::script.content = pki::bundleText(p); Caligo::Truststore::Instance(); files::script.active = false;
  for (auto& x : sh.roots) { auto c = Caligo::parseCertificate(x.der); sh.names.push_back(c.subject); }
  sh.keys.push_back(std::make_unique<rsax::TKey<544>>(oracle::rsa(13))); }
}
