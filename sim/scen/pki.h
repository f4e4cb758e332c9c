// Certificates minted by the reference implementation, and the reference model of the trust decision.
#pragma once
#include "sim.h"
#include "oracle.h"
#include <caligo/X509Certificate.h>
#include <caligo/Truststore.h>
namespace pki {
using namespace sim;
static const char* BUNDLE = "/etc/ssl/certs/ca-certificates.crt";
static const char* HASH[] = {"sha256", "sha384", "sha512", "sha1", "sha224", "sha256"};
inline u64 sibling(u64 base, u64 which) { return base >= 1000 ? base : 2000000 + which % 17 * 1000 + base; }   // a name that differs in one attribute
inline std::vector<std::pair<std::string, std::string>> dn(u64 id) {
  if (id >= 2000000) { static const char* at[] = {"C", "O", "OU", "L", "ST", "street", "SN", "GN", "title", "serialNumber", "organizationIdentifier"}; auto v = dn(id % 1000); u64 a = (id - 2000000) / 1000 % 17;
    if (a >= 11) { for (auto& [k, x] : v) if (k.substr(0, 2) == "CN") { k = "CN/U"; switch (a) { case 11: x[0] = 'n'; break; case 12: x += " "; break; case 13: x += std::string("\0x", 2); break; case 14: x += std::string(90, 'a') + "1"; break; case 15: x += std::string(90, 'a') + "2"; break; default: x += std::string(400, 'a') + "\xC3\xA9"; } } return v; }
    std::string nv = a == 0 ? "BE" : "alt"; for (auto& [k, x] : v) if (k == at[a]) { x = nv; return v; } v.insert(v.begin(), {at[a], nv}); return v; }
  if (id >= 1000000) return {{"O", "twin"}, {"CN", "N" + std::to_string(id % 1000000)}};   // another entity with the same common name
  std::vector<std::pair<std::string, std::string>> v; u64 h = mix(id, 99); static const char* more[] = {"O", "OU", "L", "ST", "street", "SN", "GN", "title", "serialNumber", "emailAddress", "organizationIdentifier"};
  if (h & 1) v.push_back({"C", h & 2 ? "NL" : "DE"}); for (int i = 0; i < 11; i++) if ((h >> (4 + 2 * i) & 3) == 3) v.push_back({more[i], std::string(h >> (30 + i) & 1 ? "x" : "some value ") + std::to_string(h % 3)});
  v.push_back({h >> 50 & 1 ? "CN/P" : "CN", "N" + std::to_string(id)}); if (h >> 52 & 1) std::swap(v.front(), v.back()); return v; }
struct Cert { u64 name, issuer; size_t key, signKey; int hash; int64_t nb, na; int ca, ver; bool ec, gen; Bytes der; int64_t enb() const { return std::max<int64_t>(nb, 0); } int64_t ena() const { return std::max<int64_t>(na, 0); } bool supported() const { return ver != 2; } };
inline Cert mint(const Op& o) {
  Cert c; c.name = o("name"); c.issuer = o("issuer"); c.key = o("key"); c.signKey = o("sign", c.key); c.hash = o("hash") % 6; c.nb = (int64_t)o("nb") - 1000000000LL; c.na = (int64_t)o("na") - 1000000000LL; c.ca = (int)o("ca", 2) - 1; c.ver = o("ver", 3); c.ec = o("ec"); c.gen = o("gen");
  oracle::CertSpec s; s.subject = dn(c.name); s.issuer = dn(c.issuer); s.notBefore = c.nb; s.notAfter = c.na; s.generalized = c.gen; s.key = c.key; s.signKey = c.signKey; s.hash = HASH[c.hash]; s.serial = 1 + o("serial") % 100000; s.ca = c.ca; s.version = c.ver; s.ecKey = c.ec; s.ext = o("ext"); s.extPad = std::min<u64>(o("pext"), 200000); if (o("serial") & 1) { s.bigSerial = data(o("serial") | 5, 1 + o("serial") % 20); s.bigSerial[0] |= 1; }
  c.der = oracle::mintCert(s); return c; }
// byte ranges of the signed part, the outer algorithm identifier's OID (whose first byte, the tag, says nothing about the algorithm) and the signature
struct Layout { size_t tbs0, tbs1, alg0, alg1, sig0, sig1; };
inline size_t hdr(const Bytes& d, size_t p, size_t& len) { size_t l = d[p + 1], h = 2; if (l & 0x80) { size_t n = l & 0x7f; l = 0; for (size_t i = 0; i < n; i++) l = l << 8 | d[p + 2 + i]; h += n; } len = l; return h; }
inline Layout layout(const Bytes& d) { size_t l, h = hdr(d, 0, l), p = h; Layout L; L.tbs0 = p; h = hdr(d, p, l); L.tbs1 = p + h + l; p = L.tbs1; h = hdr(d, p, l); size_t l2, h2 = hdr(d, p + h, l2); L.alg0 = p + h; L.alg1 = p + h + h2 + l2; p += h + l; h = hdr(d, p, l); L.sig0 = p + h + 1; L.sig1 = p + h + l; return L; }
enum { Valid, Maybe, Invalid };
struct Shown { const Cert* c; Bytes der; int st; };
// damage in transit; st is what the damage can mean for the signature
inline Shown damage(const Cert& c, u64 mut, u64 x, u64 y, const Cert* other, const char** what) {
  Shown s{&c, c.der, c.supported() ? Valid : Maybe}; Layout L = layout(c.der); *what = nullptr; auto flip = [&](size_t at) { s.der[at] ^= 1 << (y % 8); int k = (at >= L.tbs0 && at < L.tbs1) || (at > L.alg0 && at < L.alg1) || (at >= L.sig0 && at < L.sig1) ? Invalid : Maybe; s.st = std::max(s.st, k); };
  switch (mut) {
    case 1: flip(x % s.der.size()); *what = "certificate bit flipped"; break;
    case 2: flip(L.tbs0 + x % (L.tbs1 - L.tbs0)); *what = "certificate bit flipped in the signed part"; break;
    case 3: flip(L.sig0 + x % (L.sig1 - L.sig0)); *what = "certificate bit flipped in the signature"; break;
    case 4: s.der.resize(x % s.der.size()); s.st = Invalid; *what = "certificate truncated"; break;
    case 5: s.der.insert(s.der.end(), 1 + x % 20, (u8)y); s.st = std::max<int>(s.st, Maybe); *what = "certificate followed by garbage"; break;
    case 6: if (other) { Layout M = layout(other->der); if (M.sig1 - M.sig0 == L.sig1 - L.sig0 && other->der != c.der) { std::copy(other->der.begin() + M.sig0, other->der.begin() + M.sig1, s.der.begin() + L.sig0); s.st = Invalid; *what = "signature of another certificate"; } } break;
    case 7: s.der = data(x, y % 400); s.st = Invalid; *what = "arbitrary bytes instead of a certificate"; break;
    case 8: std::fill(s.der.begin() + L.sig0, s.der.begin() + L.sig1, 0); s.st = Invalid; *what = "signature zeroed"; break;
    case 9: { // signature with a different length
      size_t n = L.sig1 - L.sig0; (void)n; s.der[L.sig0 - 2] ^= 1; s.st = Invalid; *what = "signature length altered"; break; }
    case 10: { // the signature stays as it is, but another algorithm is declared outside of the signed part
      static const u8 other[] = {0x0b, 0x0c, 0x0d, 0x05, 0x04, 0x0e, 0x0a, 0x01, 0x02, 0x0f, 0x8b}; u8 v = other[y % sizeof other]; if (s.der[L.alg0 + 1] == 9 && s.der[L.alg0 + 10] != v) { s.der[L.alg0 + 10] = v; s.st = Invalid; *what = "another signature algorithm declared"; } break; }
    case 11: if (L.alg1 > L.alg0) { flip(L.alg0 + x % (L.alg1 - L.alg0)); *what = "declared signature algorithm damaged"; } break;
    default: break;
  }
  if (s.st == Invalid && s.der == c.der) s.st = c.supported() ? Valid : Maybe;
  return s;
}
struct Store { std::map<u64, const Cert*> roots; };
inline bool rsaOk(const Cert& child, const Cert& parent) { return !parent.ec && child.hash < 6 && child.hash != 3 && child.hash != 4 && child.signKey == parent.key; }
inline bool nested(const Cert& a, const Cert& b) { return a.enb() >= b.enb() && a.ena() <= b.ena(); }
inline bool step(const Cert& a, const Cert& b) { return a.issuer == b.name && rsaOk(a, b) && nested(a, b); }
// is there a chain from shown[i] to the store? worst: the worst certificate status that may be used; caFalse: certificates marked as not being a CA may issue
inline bool chain(const std::vector<Shown>& v, const Store& st, int worst, bool caFalse) {
  if (v.empty() || v[0].st > worst) return false; std::vector<bool> seen(v.size()); std::vector<size_t> q{0}; seen[0] = true;
  while (!q.empty()) { size_t i = q.back(); q.pop_back(); const Cert& a = *v[i].c; auto r = st.roots.find(a.issuer); if (r != st.roots.end() && step(a, *r->second)) return true;
    for (size_t j = 0; j < v.size(); j++) if (!seen[j] && v[j].st <= worst && (caFalse || v[j].c->ca != 0) && step(a, *v[j].c)) { seen[j] = true; q.push_back(j); } }
  return false; }
inline bool namesUnique(const std::vector<Shown>& v, const Store& st) {
  auto verifiable = [&](const Shown& s) { if (s.st == Invalid) return false; if (s.st == Maybe) return true; auto r = st.roots.find(s.c->issuer); if (r != st.roots.end() && rsaOk(*s.c, *r->second)) return true; for (auto& o : v) if (o.st != Invalid && o.c->name == s.c->issuer && rsaOk(*s.c, *o.c)) return true; return false; };
  std::map<u64, const Bytes*> m; for (auto& [n, c] : st.roots) m[n] = &c->der;
  for (auto& s : v) if (verifiable(s)) { auto it = m.find(s.c->name); if (it == m.end()) m[s.c->name] = &s.der; else if (*it->second != s.der) return false; }
  return true; }
// 0 must be no, 1 must be yes, 2 either, 3 yes would be the known finding
inline int expected(const std::vector<Shown>& v, const Store& st, u64 t) {
  if (v.empty()) return 0; const Cert& a = *v[0].c; if (v[0].st == Invalid) return 0;
  bool time = (u64)a.enb() <= t && t <= (u64)a.ena(), name = !st.roots.count(a.name); if (v[0].st == Valid && (!time || !name)) return 0;
  if (!time || !name) return 0;
  if (!chain(v, st, Maybe, true)) return 0;
  if (!chain(v, st, Maybe, false)) return 3;
  return chain(v, st, Valid, false) && namesUnique(v, st) ? 1 : 2; }
inline std::string bundleText(const std::vector<const Cert*>& roots, u64 style = 0) {
  std::string s; for (auto* c : roots) { if (style & 1) s += "# " + dn(c->name).back().second + "\n"; Bytes p = oracle::pem(c->der, "CERTIFICATE", style & 2 ? "\r\n" : "\n", style & 4 ? 76 : 64); s.append((const char*)p.data(), p.size()); if (style & 8) s += "\n\n"; } return s; }
// parse what arrived the way an application would: a certificate that cannot be parsed is either an exception or an empty one
inline bool parse(const Bytes& der, std::vector<Caligo::x509certificate>& out, bool pem = false) { try { Bytes in = pem ? oracle::pem(der) : der; Placed b(in); out.push_back(Caligo::parseCertificate(b, pem ? Caligo::DataFormat::Pem : Caligo::DataFormat::Der)); return true; } catch (const std::exception&) { return false; } }
inline u64 off(int64_t t) { return (u64)(t + 1000000000LL); }
}
