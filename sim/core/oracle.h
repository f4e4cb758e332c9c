// Independent reference implementations (OpenSSL, and textbook code where OpenSSL has none). Never includes Caligo.
#pragma once
#include "sim.h"
namespace oracle {
using sim::Bytes; using sim::u8; using sim::u64;
using Span = std::span<const u8>;
void seedReference(u64);                           // its own random choices (PSS salts) are scripted as well
// ---- digests ---------------------------------------------------------------------------------------------------
struct Digest { void* ctx; explicit Digest(const char* name); ~Digest(); Digest(const Digest&); Digest& operator=(const Digest&); void add(Span); Bytes get() const; };
Bytes digest(const char* name, Span);              // md5 sha1 sha224 sha256 sha384 sha512 sha3-224 ... crc32
Bytes hmac(const char* name, Span key, Span text);
Bytes hkdfExtract(const char* name, Span salt, Span ikm);
Bytes hkdfExpand(const char* name, Span prk, Span info, size_t len);
Bytes expandLabel(const char* name, Span secret, const std::string& label, Span context, size_t len);
// ---- symmetric -------------------------------------------------------------------------------------------------
Bytes chacha20(Span key, Span nonce, sim::u32 counter, Span in);
Bytes aesBlock(Span key, Span block);              // ECB, one or more blocks
void gcm(Span key, Span iv, Span pt, Span aad, Bytes& ct, Bytes& tag);
Bytes gcmIvFor(Span key, Span j0);                 // a 16-byte IV whose pre-counter block is j0
// ---- asymmetric ------------------------------------------------------------------------------------------------
Bytes x25519(Span k, Span u);                      // all-zero when OpenSSL refuses (low order)
Bytes x25519pub(Span k);
struct Rsa { void* key; Bytes n, e, d; size_t bits; Bytes derPriv; };
size_t rsaCount();
Rsa& rsa(size_t i);                                // the committed key pool
Bytes rsaSign(Rsa&, const char* hash, bool pss, Span msg, int saltLen = -1);
bool rsaVerify(Rsa&, const char* hash, bool pss, Span msg, Span sig, int saltLen = -1);
Bytes rsaRaw(Rsa&, Span in, bool priv);            // textbook operation, big endian, modulus length
Bytes sub(Span a, Span b); Bytes addb(Span a, Span b, size_t outLen); // big-endian integers
bool isPrime(Span bigEndian);
// ---- certificates ----------------------------------------------------------------------------------------------
struct CertSpec {
  std::vector<std::pair<std::string, std::string>> subject, issuer; // short name (CN, O, C ...) -> value
  int64_t notBefore = 0, notAfter = 0; bool generalized = false;
  size_t key = 0, signKey = 0; const char* hash = "sha256"; u64 serial = 1; int ca = -1; // -1 no basicConstraints, 0 CA:FALSE, 1 CA:TRUE
  int version = 3; bool ecKey = false; Bytes bigSerial; u64 ext = 0, extPad = 0; // bits: key usage, alternative names, an unknown extension; octets of another one
};
Bytes mintCert(const CertSpec&);
Bytes pem(Span der, const char* label = "CERTIFICATE", const char* eol = "\n", size_t width = 64);
Bytes signedPart(Span der);                        // the TBS element of a certificate
std::string base64(Span, bool pad, const char* last2);
}
