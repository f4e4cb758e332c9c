#include "oracle.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/bn.h>
#include <openssl/rsa.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <openssl/core_names.h>
#include <openssl/ec.h>
#include <openssl/rand.h>
#include <stdexcept>
#include <fstream>
#include <sstream>
namespace oracle {
static void need(bool ok, const char* w) { if (!ok) throw std::runtime_error(std::string("oracle: ") + w); }
// the reference implementation's own randomness (PSS salts, blinding, EC keys) is a fixed sequence too
static sim::Rng refRng(0x5eed);
static int rb(unsigned char* b, int n) { for (int i = 0; i < n; i++) b[i] = (u8)refRng.next(); return 1; }
static int rs(const void*, int) { return 1; } static int ra(const void*, int, double) { return 1; } static int st1() { return 1; } static void rc() {}
static RAND_METHOD rm{rs, rb, rc, ra, rb, st1};
void seedReference(u64 s) { refRng = sim::Rng(s); RAND_set_rand_method(&rm); }
__attribute__((constructor)) static void initRef() { RAND_set_rand_method(&rm); }
static const EVP_MD* md(const char* n) { static std::map<std::string, EVP_MD*> m; auto& p = m[n]; if (!p) { std::string q = n; p = EVP_MD_fetch(nullptr, q.c_str(), nullptr); } need(p, n); return p; }
static uint32_t crcAdd(uint32_t h, Span d) { static uint32_t t[256]; static bool init = false;
  if (!init) { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); t[i] = c; } init = true; }
  for (u8 b : d) h = (h >> 8) ^ t[(h ^ b) & 255]; return h; }
struct DC { bool crc; uint32_t h; EVP_MD_CTX* c; };
Digest::Digest(const char* name) { auto d = new DC{!strcmp(name, "crc32"), 0xFFFFFFFF, nullptr}; if (!d->crc) { d->c = EVP_MD_CTX_new(); need(EVP_DigestInit_ex(d->c, md(name), nullptr) == 1, "init"); } ctx = d; }
Digest::~Digest() { auto d = (DC*)ctx; if (d) { EVP_MD_CTX_free(d->c); delete d; } }
Digest::Digest(const Digest& o) { auto s = (DC*)o.ctx; auto d = new DC(*s); if (s->c) { d->c = EVP_MD_CTX_new(); EVP_MD_CTX_copy_ex(d->c, s->c); } ctx = d; }
Digest& Digest::operator=(const Digest& o) { Digest t(o); std::swap(t.ctx, ctx); return *this; }
void Digest::add(Span s) { auto d = (DC*)ctx; if (d->crc) d->h = crcAdd(d->h, s); else EVP_DigestUpdate(d->c, s.data(), s.size()); }
Bytes Digest::get() const { auto d = (DC*)ctx; if (d->crc) { uint32_t v = d->h ^ 0xFFFFFFFF; return {(u8)(v >> 24), (u8)(v >> 16), (u8)(v >> 8), (u8)v}; }
  EVP_MD_CTX* c = EVP_MD_CTX_new(); EVP_MD_CTX_copy_ex(c, d->c); u8 b[64]; unsigned l; EVP_DigestFinal_ex(c, b, &l); EVP_MD_CTX_free(c); return Bytes(b, b + l); }
Bytes digest(const char* n, Span s) { Digest d(n); d.add(s); return d.get(); }
Bytes hmac(const char* n, Span key, Span text) {
  // RFC 2104 written out over the reference digest
  size_t B = EVP_MD_get_block_size(md(n)); Bytes k(key.begin(), key.end()); if (k.size() > B) k = digest(n, k); k.resize(B);
  Bytes i = k, o = k; for (auto& c : i) c ^= 0x36; for (auto& c : o) c ^= 0x5c;
  Digest a(n); a.add(i); a.add(text); Bytes h = a.get(); Digest b(n); b.add(o); b.add(h); return b.get(); }
Bytes hkdfExtract(const char* n, Span salt, Span ikm) { return hmac(n, salt, ikm); }
Bytes hkdfExpand(const char* n, Span prk, Span info, size_t len) {
  Bytes out, t; for (u8 c = 1; out.size() < len; c++) { Bytes m = t; m.insert(m.end(), info.begin(), info.end()); m.push_back(c); t = hmac(n, prk, m); out.insert(out.end(), t.begin(), t.end()); }
  out.resize(len); return out; }
Bytes expandLabel(const char* n, Span secret, const std::string& label, Span context, size_t len) {
  std::string l = "tls13 " + label; Bytes i{(u8)(len >> 8), (u8)len, (u8)l.size()}; i.insert(i.end(), l.begin(), l.end()); i.push_back((u8)context.size()); i.insert(i.end(), context.begin(), context.end());
  return hkdfExpand(n, secret, i, len); }
Bytes chacha20(Span key, Span nonce, sim::u32 counter, Span in) {
  u8 iv[16]; for (int i = 0; i < 4; i++) iv[i] = counter >> (8 * i); memcpy(iv + 4, nonce.data(), 12);
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); Bytes out(in.size()); int l = 0; EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, key.data(), iv);
  size_t o = 0; while (o < in.size()) { int n = (int)std::min<size_t>(in.size() - o, 1 << 24); EVP_EncryptUpdate(c, out.data() + o, &l, in.data() + o, n); o += n; }
  EVP_CIPHER_CTX_free(c); return out; }
Bytes aesBlock(Span key, Span in) {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); Bytes out(in.size() + 16); int l = 0;
  EVP_EncryptInit_ex(c, key.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, key.data(), nullptr); EVP_CIPHER_CTX_set_padding(c, 0);
  EVP_EncryptUpdate(c, out.data(), &l, in.data(), (int)in.size()); EVP_CIPHER_CTX_free(c); out.resize(in.size()); return out; }
void gcm(Span key, Span iv, Span pt, Span aad, Bytes& ct, Bytes& tag) {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); int l = 0; ct.assign(pt.size(), 0); tag.assign(16, 0);
  need(EVP_EncryptInit_ex(c, key.size() == 16 ? EVP_aes_128_gcm() : EVP_aes_256_gcm(), nullptr, nullptr, nullptr) == 1, "gcm");
  need(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), nullptr) == 1, "ivlen"); EVP_EncryptInit_ex(c, nullptr, nullptr, key.data(), iv.data());
  if (!aad.empty()) EVP_EncryptUpdate(c, nullptr, &l, aad.data(), (int)aad.size());
  if (!pt.empty()) EVP_EncryptUpdate(c, ct.data(), &l, pt.data(), (int)pt.size());
  u8 dummy[16]; EVP_EncryptFinal_ex(c, dummy, &l); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, tag.data()); EVP_CIPHER_CTX_free(c); }
// GF(2^128) in GCM bit order
using G = std::array<u64, 2>; // big-endian halves
static G ld(Span b) { G g{0, 0}; for (int i = 0; i < 8; i++) { g[0] = g[0] << 8 | b[i]; g[1] = g[1] << 8 | b[8 + i]; } return g; }
static Bytes st(G g) { Bytes b(16); for (int i = 0; i < 8; i++) { b[7 - i] = g[0] >> (8 * i); b[15 - i] = g[1] >> (8 * i); } return b; }
static G mul(G x, G y) { G z{0, 0}, v = y; for (int i = 0; i < 128; i++) { if ((i < 64 ? x[0] >> (63 - i) : x[1] >> (127 - i)) & 1) { z[0] ^= v[0]; z[1] ^= v[1]; } bool lsb = v[1] & 1; v[1] = v[1] >> 1 | v[0] << 63; v[0] >>= 1; if (lsb) v[0] ^= 0xE100000000000000ULL; } return z; }
static G inv(G h) { G r{0x8000000000000000ULL, 0}, b = h; for (int i = 0; i < 127; i++) { b = mul(b, b); r = mul(r, b); } return r; } // h^(2^128-2)
Bytes gcmIvFor(Span key, Span j0) { Bytes z(16); G h = ld(aesBlock(key, z)), hi = inv(h); G t = mul(ld(j0), hi); t[1] ^= 128; return st(mul(t, hi)); }
Bytes x25519(Span k, Span u) {
  EVP_PKEY *p = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, k.data(), 32), *q = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, u.data(), 32);
  EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(p, nullptr); Bytes o(32); size_t l = 32; EVP_PKEY_derive_init(c); EVP_PKEY_derive_set_peer(c, q); if (EVP_PKEY_derive(c, o.data(), &l) != 1) o.assign(32, 0);
  EVP_PKEY_CTX_free(c); EVP_PKEY_free(p); EVP_PKEY_free(q); return o; }
Bytes x25519pub(Span k) { EVP_PKEY* p = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, k.data(), 32); Bytes o(32); size_t l = 32; EVP_PKEY_get_raw_public_key(p, o.data(), &l); EVP_PKEY_free(p); return o; }

static std::vector<Rsa>& pool() {
  static std::vector<Rsa> v; if (!v.empty()) return v;
  const char* f = SIM_KEYS; BIO* b = BIO_new_file(f, "r"); need(b, "key pool");
  while (EVP_PKEY* k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr)) {
    Rsa r; r.key = k; r.bits = EVP_PKEY_get_bits(k); BIGNUM *n = nullptr, *e = nullptr, *d = nullptr;
    EVP_PKEY_get_bn_param(k, "n", &n); EVP_PKEY_get_bn_param(k, "e", &e); EVP_PKEY_get_bn_param(k, "d", &d);
    auto by = [](BIGNUM* x) { Bytes o(BN_num_bytes(x)); BN_bn2bin(x, o.data()); return o; }; r.n = by(n); r.e = by(e); r.d = by(d); BN_free(n); BN_free(e); BN_free(d);
    u8* p = nullptr; OSSL_LIB_CTX* lc = nullptr; (void)lc; int l = i2d_PrivateKey(k, &p); r.derPriv.assign(p, p + l); OPENSSL_free(p); v.push_back(r); }
  BIO_free(b); need(!v.empty(), "empty key pool"); return v; }
size_t rsaCount() { return pool().size(); }
Rsa& rsa(size_t i) { return pool()[i % pool().size()]; }
static EVP_PKEY_CTX* sigctx(EVP_MD_CTX* m, Rsa& k, const char* h, bool pss, bool sign, int salt) {
  EVP_PKEY_CTX* pc = nullptr; need((sign ? EVP_DigestSignInit(m, &pc, md(h), nullptr, (EVP_PKEY*)k.key) : EVP_DigestVerifyInit(m, &pc, md(h), nullptr, (EVP_PKEY*)k.key)) == 1, "siginit");
  EVP_PKEY_CTX_set_rsa_padding(pc, pss ? RSA_PKCS1_PSS_PADDING : RSA_PKCS1_PADDING); if (pss) EVP_PKEY_CTX_set_rsa_pss_saltlen(pc, salt); return pc; }
Bytes rsaSign(Rsa& k, const char* h, bool pss, Span msg, int salt) { EVP_MD_CTX* m = EVP_MD_CTX_new(); sigctx(m, k, h, pss, true, salt); size_t l = 0; EVP_DigestSign(m, nullptr, &l, msg.data(), msg.size()); Bytes s(l); int ok = EVP_DigestSign(m, s.data(), &l, msg.data(), msg.size()); s.resize(ok == 1 ? l : 0); EVP_MD_CTX_free(m); return s; }
bool rsaVerify(Rsa& k, const char* h, bool pss, Span msg, Span sig, int salt) { EVP_MD_CTX* m = EVP_MD_CTX_new(); sigctx(m, k, h, pss, false, salt); int ok = EVP_DigestVerify(m, sig.data(), sig.size(), msg.data(), msg.size()); EVP_MD_CTX_free(m); return ok == 1; }
static Bytes pad(const BIGNUM* b, size_t n) { Bytes o(n); BN_bn2binpad(b, o.data(), (int)n); return o; }
Bytes rsaRaw(Rsa& k, Span in, bool priv) { BN_CTX* c = BN_CTX_new(); BIGNUM *m = BN_bin2bn(in.data(), (int)in.size(), nullptr), *n = BN_bin2bn(k.n.data(), (int)k.n.size(), nullptr), *e = priv ? BN_bin2bn(k.d.data(), (int)k.d.size(), nullptr) : BN_bin2bn(k.e.data(), (int)k.e.size(), nullptr), *r = BN_new();
  BN_mod_exp(r, m, e, n, c); Bytes o = pad(r, k.n.size()); BN_free(m); BN_free(n); BN_free(e); BN_free(r); BN_CTX_free(c); return o; }
Bytes addb(Span a, Span b, size_t len) { BIGNUM *x = BN_bin2bn(a.data(), (int)a.size(), nullptr), *y = BN_bin2bn(b.data(), (int)b.size(), nullptr); BN_add(x, x, y); Bytes o; if ((size_t)BN_num_bytes(x) <= len) o = pad(x, len); BN_free(x); BN_free(y); return o; }
Bytes sub(Span a, Span b) { BIGNUM *x = BN_bin2bn(a.data(), (int)a.size(), nullptr), *y = BN_bin2bn(b.data(), (int)b.size(), nullptr); BN_sub(x, x, y); Bytes o = pad(x, a.size()); BN_free(x); BN_free(y); return o; }
bool isPrime(Span b) { BIGNUM* x = BN_bin2bn(b.data(), (int)b.size(), nullptr); BN_CTX* c = BN_CTX_new(); int r = BN_check_prime(x, c, nullptr); BN_free(x); BN_CTX_free(c); return r == 1; }

static X509_NAME* name(const std::vector<std::pair<std::string, std::string>>& v) { X509_NAME* n = X509_NAME_new(); for (auto& [k, s] : v) { int t = MBSTRING_UTF8; std::string kk = k; if (k.size() > 2 && k[k.size() - 2] == '/') { t = k.back() == 'P' ? V_ASN1_PRINTABLESTRING : k.back() == 'T' ? V_ASN1_T61STRING : V_ASN1_UTF8STRING; kk = k.substr(0, k.size() - 2); } X509_NAME_add_entry_by_txt(n, kk.c_str(), t, (const u8*)s.data(), (int)s.size(), -1, 0); } return n; }
static void setTime(ASN1_TIME* t, int64_t s, bool gen) { if (gen || s < -631152000LL || s >= 2524608000LL) ASN1_GENERALIZEDTIME_set(t, s); else ASN1_UTCTIME_set(t, s); }
Bytes mintCert(const CertSpec& s) {
  X509* x = X509_new(); X509_set_version(x, s.version - 1); BIGNUM* sn = BN_new(); BN_set_word(sn, s.serial); if (!s.bigSerial.empty()) BN_bin2bn(s.bigSerial.data(), (int)s.bigSerial.size(), sn); BN_to_ASN1_INTEGER(sn, X509_get_serialNumber(x)); BN_free(sn);
  X509_NAME *su = name(s.subject), *is = name(s.issuer); X509_set_subject_name(x, su); X509_set_issuer_name(x, is); X509_NAME_free(su); X509_NAME_free(is);
  setTime(X509_getm_notBefore(x), s.notBefore, s.generalized); setTime(X509_getm_notAfter(x), s.notAfter, s.generalized);
  if (s.ecKey) { static EVP_PKEY* ec = EVP_EC_gen("P-256"); X509_set_pubkey(x, ec); } else X509_set_pubkey(x, (EVP_PKEY*)rsa(s.key).key);
  if (s.ca >= 0 && s.version == 3) { X509_EXTENSION* e = X509V3_EXT_conf_nid(nullptr, nullptr, NID_basic_constraints, s.ca ? "critical,CA:TRUE" : "critical,CA:FALSE"); X509_add_ext(x, e, -1); X509_EXTENSION_free(e); }
  if (s.version == 3) {
    auto add = [&](int nid, const char* v) { X509_EXTENSION* e = X509V3_EXT_conf_nid(nullptr, nullptr, nid, v); if (e) { X509_add_ext(x, e, -1); X509_EXTENSION_free(e); } };
    auto raw = [&](const char* oid, const Bytes& b) { ASN1_OBJECT* o = OBJ_txt2obj(oid, 1); ASN1_OCTET_STRING* d = ASN1_OCTET_STRING_new(); ASN1_OCTET_STRING_set(d, b.data(), (int)b.size()); X509_EXTENSION* e = X509_EXTENSION_create_by_OBJ(nullptr, o, 0, d); X509_add_ext(x, e, -1); X509_EXTENSION_free(e); ASN1_OCTET_STRING_free(d); ASN1_OBJECT_free(o); };
    if (s.ext & 1) add(NID_key_usage, s.ca == 0 ? "critical,digitalSignature,keyEncipherment" : "critical,keyCertSign,cRLSign,digitalSignature");
    if (s.ext & 2) add(NID_subject_alt_name, "DNS:example.test,DNS:*.example.test,IP:192.0.2.1,email:a@example.test");
    if (s.ext & 4) raw("1.3.6.1.4.1.99999.1", {0x0C, 0x03, 'a', 'b', 'c'});
    if (s.ext & 8) raw("2.5.29.14", {0x04, 0x04, 1, 2, 3, 4});
    if (s.extPad) raw("1.3.6.1.4.1.99999.2", sim::data(s.extPad | 5, s.extPad)); }
  need(X509_sign(x, (EVP_PKEY*)rsa(s.signKey).key, md(s.hash)) > 0, "sign");
  u8* p = nullptr; int l = i2d_X509(x, &p); Bytes o(p, p + l); OPENSSL_free(p); X509_free(x); return o; }
std::string base64(Span d, bool padit, const char* last2) {
  std::string abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"; abc += last2; std::string o; size_t i = 0;
  for (; i + 3 <= d.size(); i += 3) { uint32_t v = d[i] << 16 | d[i + 1] << 8 | d[i + 2]; for (int k = 18; k >= 0; k -= 6) o += abc[v >> k & 63]; }
  if (d.size() - i == 1) { uint32_t v = d[i] << 16; o += abc[v >> 18 & 63]; o += abc[v >> 12 & 63]; if (padit) o += "=="; }
  if (d.size() - i == 2) { uint32_t v = d[i] << 16 | d[i + 1] << 8; o += abc[v >> 18 & 63]; o += abc[v >> 12 & 63]; o += abc[v >> 6 & 63]; if (padit) o += "="; }
  return o; }
Bytes pem(Span der, const char* label, const char* eol, size_t width) { std::string b = base64(der, true, "+/"), o = std::string("-----BEGIN ") + label + "-----" + eol; for (size_t i = 0; i < b.size(); i += width) o += b.substr(i, width) + eol; o += std::string("-----END ") + label + "-----" + eol; return Bytes(o.begin(), o.end()); }
}
