// Adapters for RSA keys of any container width, and certificates as a source of generic public keys.
#pragma once
#include "sim.h"
#include "oracle.h"
#include <caligo/sha2.h>
#include <caligo/rsa.h>
#include <caligo/X509Certificate.h>
namespace rsax {
using namespace sim;
template <size_t N> Caligo::bignum<N> bn(std::span<const u8> be) { Bytes r(be.rbegin(), be.rend()); r.resize(N / 8); return Caligo::bignum<N>(std::span<const u8>(r)); }
static const char* HN[] = {"sha256", "sha384", "sha512"}; static const size_t HL[] = {32, 48, 64};
struct Key { virtual ~Key() {} virtual Bytes sign(bool pss, u64 h, std::span<const u8> msg, std::span<const u8> salt) = 0; virtual bool verify(bool pss, u64 h, std::span<const u8> msg, std::span<const u8> sig) = 0; };
template <size_t N> struct TKey : Key {
  std::unique_ptr<Caligo::rsa_public_key<N>> pub; std::unique_ptr<Caligo::rsa_private_key<N>> priv;
  TKey(oracle::Rsa& k) : pub(std::make_unique<Caligo::rsa_public_key<N>>(bn<N>(k.n), bn<N>(k.e))), priv(std::make_unique<Caligo::rsa_private_key<N>>(bn<N>(k.n), bn<N>(k.d))) {}
  template <class H> Bytes s(bool pss, std::span<const u8> m, std::span<const u8> salt) { if (!pss) return priv->template signPkcs1_5Signature<H>(m); auto d = H(m).data(); return priv->template signPssSignature<H, Caligo::MGF1<H>>(d, salt); }
  template <class H> bool v(bool pss, std::span<const u8> m, std::span<const u8> sig) { return pss ? pub->template validatePssSignature<H, Caligo::MGF1<H>>(m, sig) : pub->template validatePkcs1_5Signature<H>(m, sig); }
  Bytes sign(bool pss, u64 h, std::span<const u8> m_, std::span<const u8> salt_) override { Given m(m_), salt(salt_); struct Ok { Given &a, &b; ~Ok() noexcept(false) { if (!std::uncaught_exceptions()) a.ok(), b.ok(); } } ok{m, salt}; switch (h) { case 0: return s<Caligo::SHA2<256>>(pss, m, salt); case 1: return s<Caligo::SHA2<384>>(pss, m, salt); default: return s<Caligo::SHA2<512>>(pss, m, salt); } }
  bool verify(bool pss, u64 h, std::span<const u8> m_, std::span<const u8> sig_) override { Given m(m_), sig(sig_); struct Ok { Given &a, &b; ~Ok() noexcept(false) { if (!std::uncaught_exceptions()) a.ok(), b.ok(); } } ok{m, sig}; switch (h) { case 0: return v<Caligo::SHA2<256>>(pss, m, sig); case 1: return v<Caligo::SHA2<384>>(pss, m, sig); default: return v<Caligo::SHA2<512>>(pss, m, sig); } }
};
inline Caligo::Tls13SignatureScheme scheme(bool pss, u64 h, bool alt = false) { using S = Caligo::Tls13SignatureScheme; static const S p[] = {S::rsa_pkcs1_sha256, S::rsa_pkcs1_sha384, S::rsa_pkcs1_sha512}, a[] = {S::rsa_pss_rsae_sha256, S::rsa_pss_rsae_sha384, S::rsa_pss_rsae_sha512}, b[] = {S::rsa_pss_pss_sha256, S::rsa_pss_pss_sha384, S::rsa_pss_pss_sha512}; return pss ? (alt ? b[h] : a[h]) : p[h]; }
inline Bytes certFor(size_t key) { oracle::CertSpec s; s.subject = s.issuer = {{"CN", "k" + std::to_string(key)}}; s.notAfter = 2000000000; s.key = key; s.signKey = 5; return oracle::mintCert(s); }
// PKCS#1 v1.5 signing here takes the contents of a DER SEQUENCE: this is what is hashed
inline Bytes seqOf(std::span<const u8> m) { Bytes o{0x30}; size_t n = m.size(); if (n < 0x80) o.push_back(n); else if (n < 0x100) { o.push_back(0x81); o.push_back(n); } else if (n < 0x10000) { o.push_back(0x82); o.push_back(n >> 8); o.push_back(n); } else { o.push_back(0x83); o.push_back(n >> 16); o.push_back(n >> 8); o.push_back(n); } o.insert(o.end(), m.begin(), m.end()); return o; }
inline bool fits(size_t k, bool pss, u64 h) { static const size_t id = 19; return pss ? k >= 2 * HL[h] + 2 : k >= id + HL[h] + 11; }
}
