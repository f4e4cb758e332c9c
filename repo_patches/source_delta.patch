From 846456c8557998bf108a40b3fd82e32b29030d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 01/21] fix: CTR keystream was discarded, leaving data
 unencrypted

The keystream was written past the end of a reserve()d but empty vector and
then value-initialized away by resize(), so Encrypt/Decrypt were no-ops.
---
 include/caligo/ctr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/ctr.h b/include/caligo/ctr.h
index c84f7d7..c836c59 100644
--- a/include/caligo/ctr.h
+++ b/include/caligo/ctr.h
@@ -46,7 +46,7 @@ struct CTR {
 
     std::vector<uint8_t> keystream;
     size_t blocks = (size + Cipher::size - 1) / Cipher::size;
-    keystream.reserve(blocks * Cipher::size);
+    keystream.resize(blocks * Cipher::size);
     for (size_t n = 0; n < blocks; n++) {
       ctr_inc(ctr);
       __m128i block = Cipher::Encrypt(sched, _mm_loadu_si128((__m128i*)ctr.data()));
-- 
2.43.0


From aa17b2fa77f41fb2447b6f3a14cd460f78edce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 02/21] fix: bounds-check ASN.1 reads

Truncated or corrupted DER made asn1_view read past the end of its buffer.
---
 include/caligo/Asn1.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/caligo/Asn1.h b/include/caligo/Asn1.h
index 7d78731..a7764b4 100644
--- a/include/caligo/Asn1.h
+++ b/include/caligo/Asn1.h
@@ -33,26 +33,36 @@ struct asn1_view {
   asn1_view(std::span<const uint8_t> data) 
   : data(data)
   {}
+  // Truncated or malformed input reads as an empty element without a known id, and ends the view.
   std::pair<asn1_id, std::span<const uint8_t>> read() {
+    if (data.size() - offset < 2) return malformed();
     asn1_id id = (asn1_id)data[offset++];
     size_t size = data[offset++];
     if (size & 0x80) {
       size_t bytes = size & 0x7F;
+      if (bytes > sizeof(size_t) || bytes > data.size() - offset) return malformed();
       size = 0;
       for (; bytes --> 0;) {
         size = (size << 8) + data[offset++];
       }
     }
+    if (size > data.size() - offset) return malformed();
     size_t off = offset;
     offset += size;
     return { id, std::span<const uint8_t>(data.data() + off, data.data() + off + size) };
   }
   asn1_id peek() {
+    if (empty()) return (asn1_id)0;
     return (asn1_id)data[offset];
   }
   bool empty() {
     return offset == data.size();
   }
+private:
+  std::pair<asn1_id, std::span<const uint8_t>> malformed() {
+    offset = data.size();
+    return { (asn1_id)0, {} };
+  }
 };
 
 }
-- 
2.43.0


From 995b8aafdc539080ecd9b94fe9a09d798298ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 03/21] fix: reject malformed dates, keys and signatures in
 certificates

Empty or short time strings, empty bit strings and a zero modulus (which made
the Montgomery setup loop forever) were used without checking.
---
 src/X509Certificate.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 8f0fc73..b703f2e 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -106,7 +106,7 @@ template <>
 x509date parseDer<x509date>(asn1_view& data) {
   static constexpr size_t daysInMonth[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
   auto [id, bytes] = data.read();
-  if (bytes.back() != 'Z') return 0;
+  if (bytes.empty() || bytes.back() != 'Z') return 0;
   std::vector<uint8_t> bytesCopy;
   if (id == asn1_id::utctime) {
     bool isPre2000 = (bytes[0] >= '5');
@@ -120,6 +120,7 @@ x509date parseDer<x509date>(asn1_view& data) {
   for (auto& b : bytesCopy) {
     if (b < '0' || b > '9') return 0;
   }
+  if (bytesCopy.size() < 10) return 0;
   int year = (bytesCopy[0] - '0') * 1000 + (bytesCopy[1] - '0') * 100 + (bytesCopy[2] - '0') * 10 + (bytesCopy[3] - '0') - 1970;
   int month = (bytesCopy[4] - '0') * 10 + bytesCopy[5] - '0';
   if (month <= 0 || month > 12) return 0;
@@ -227,6 +228,7 @@ RsaPubkey parseDer<RsaPubkey>(asn1_view& data) {
   asn1_view d(d2);
   Caligo::bignum<4096> n = parseBignumDer<4096>(d);
   Caligo::bignum<4096> e = parseBignumDer<4096>(d);
+  if (not n.bit(0)) throw std::runtime_error("Invalid public key; N is even");
   if (e < Caligo::bignum<4096>(17)) throw std::runtime_error("Invalid public key; E is only " + std::to_string(e[0]));
   return {Caligo::rsa_public_key<4096>{n, e}};
 }
@@ -243,6 +245,7 @@ std::unique_ptr<PublicKey> parseDer<std::unique_ptr<PublicKey>>(asn1_view& data)
     return {};
 
   auto [id3, s2] = data.read();
+  if (id3 != asn1_id::bit_string || s2.empty()) FAIL();
   std::span<const uint8_t> s22 = s2.subspan(1);
   asn1_view body(s22);
   return std::make_unique<RsaPubkey>(parseDer<RsaPubkey>(body));
@@ -373,7 +376,7 @@ bool x509certificate::verify(x509certificate& issuer) {
   auto [sig_id, algo] = data.read();
   auto [signature_id, sig] = data.read();
   if (sig_id != asn1_id::sequence) return false;
-  if (signature_id != asn1_id::bit_string) return false;
+  if (signature_id != asn1_id::bit_string || sig.empty()) return false;
   // Verify signature, using algo, on cert.
   // find certificate that has the correct issuer
 
@@ -415,6 +418,7 @@ std::unique_ptr<PrivateKey> parsePrivateKey(std::span<const uint8_t> in, DataFor
 
   /*Caligo::bignum<32> version = */parseBignumDer<32>(data);
   Caligo::bignum<4096> modulus = parseBignumDer<4096>(data);
+  if (not modulus.bit(0)) FAIL();
   /*Caligo::bignum<4096> publicExponent = */parseBignumDer<4096>(data);
   Caligo::bignum<4096> privateExponent = parseBignumDer<4096>(data);
   /*
-- 
2.43.0


From faddd2859f4f22b6dbba45473e68e73a391548d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 04/21] fix: certificate dates before 1970 and after February
 2100

Dates before 1970 wrapped around to the far future, making long-expired
certificates appear valid, and 2100 was counted as a leap year.
---
 src/X509Certificate.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index b703f2e..03454c1 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -129,8 +129,10 @@ x509date parseDer<x509date>(asn1_view& data) {
   int minutes = (bytesCopy.size() >= 12) ? (bytesCopy[10] - '0') * 10 + bytesCopy[11] - '0' : 0;
   int seconds = (bytesCopy.size() >= 14) ? (bytesCopy[12] - '0') * 10 + bytesCopy[13] - '0' : 0;
 
-  int leapdays = (year + 1) / 4;
-  if (year % 4 == 2 && month > 2) leapdays++;
+  if (year < 0) return 0;
+  int leapdays = (year + 1) / 4 - (year + 69) / 100 + (year + 369) / 400;
+  bool isLeapYear = (year % 4 == 2) && (year % 100 != 30 || year % 400 == 30);
+  if (isLeapYear && month > 2) leapdays++;
   return (year * 365 + (daysInMonth[month-1] + day - 1 + leapdays)) * 86400 + hours * 3600 + minutes * 60 + seconds;
 }
 
-- 
2.43.0


From aab8d1df01c165683facdc767811d806e5ce07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 05/21] fix: parse the last certificate of a PEM bundle

The final step parsed the whole buffer again, yielding the first certificate
twice and never the last one.
---
 src/X509Certificate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 03454c1..d04c169 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -344,6 +344,7 @@ std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
   std::vector<x509certificate> certs;
   std::string_view buffer((const char*)in.data(), in.size());
   size_t start = buffer.find("-----BEGIN CERTIFICATE-----");
+  if (start == std::string::npos) return certs;
   size_t end = buffer.find("-----BEGIN CERTIFICATE-----", start + 1);
 
   while (end != std::string::npos) {
@@ -355,7 +356,7 @@ std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
     end = buffer.find("-----BEGIN CERTIFICATE-----", start + 1);
   }
 
-  std::span<const uint8_t> av(std::span<const uint8_t>((const uint8_t*)buffer.data(), buffer.size()));
+  std::span<const uint8_t> av(std::span<const uint8_t>((const uint8_t*)buffer.data() + start, buffer.size() - start));
   certs.push_back(parseCertificate(av, DataFormat::Pem));
   return certs;
 }
-- 
2.43.0


From 27a40871b19847a63af384503e73b7fe22afd951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 06/21] fix: do not dereference a missing issuer public key

Certificates with an unsupported key type are kept without a public key;
verifying anything against those dereferenced a null pointer.
---
 src/X509Certificate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index d04c169..8dd5816 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -362,6 +362,8 @@ std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
 }
 
 bool x509certificate::verify(x509certificate& issuer) {
+  if (not issuer.pubkey)
+    return false;
   if (validity_start < issuer.validity_start)
     return false;
   if (validity_end > issuer.validity_end)
-- 
2.43.0


From 23e04a2a544b773c1881892cd90eaa4ee95c0241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 07/21] fix: an empty certificate chain is not trusted

Truststore::trust read the first element of an empty vector.
---
 src/Truststore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Truststore.cpp b/src/Truststore.cpp
index 218d6ca..d82ae5f 100644
--- a/src/Truststore.cpp
+++ b/src/Truststore.cpp
@@ -42,6 +42,8 @@ void Truststore::addCertificate(x509certificate cert) {
 //   Mark certificate as valid and continue to the next
 
 bool Truststore::trust(std::vector<x509certificate> &untrustedCertificates, uint64_t currentTime) {
+  if (untrustedCertificates.empty())
+    return false;
   std::map<std::string, x509certificate*> localCertMap;
   for (auto& [name, cert] : trusted_certs) {
     localCertMap[name] = &cert;
-- 
2.43.0


From 811a7b826dd0cca188a81d0ec77ca891e1a01d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 08/21] fix: do not store unparsable certificates in the trust
 store

A truncated or otherwise unparsable bundle entry ended up as a trusted
certificate with an empty name.
---
 src/Truststore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Truststore.cpp b/src/Truststore.cpp
index d82ae5f..57efabb 100644
--- a/src/Truststore.cpp
+++ b/src/Truststore.cpp
@@ -17,6 +17,7 @@ Truststore::Truststore() {
   in.read((char*)buffer.data(), buffer.size());
   std::vector<x509certificate> certs = parseCertificatesPem(buffer);
   for (auto& cert : certs) {
+    if (cert.derCert.empty()) continue;
     trusted_certs[cert.subject] = std::move(cert);
   }
 }
-- 
2.43.0


From c2aea1afdc4e3fb7ec933e7b1056215265edf49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 09/21] fix: check length and range of RSA signatures before
 using them

Short signatures made PSS validation read out of bounds and PKCS#1 v1.5
validation loop until memory ran out; signatures not below the modulus
were accepted.
---
 include/caligo/rsa.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/caligo/rsa.h b/include/caligo/rsa.h
index bc7a0bd..cb2522b 100644
--- a/include/caligo/rsa.h
+++ b/include/caligo/rsa.h
@@ -103,8 +103,16 @@ struct rsa_public_key {
       return MontgomeryValue<N>(s, m).exp(e);
     }
   }
+  // RFC8017, chapter 8.1.2 & 8.2.2: a signature is as long as the modulus, and represents a value below it
+  bool isPossibleSignature(std::span<const uint8_t> sig, const bignum<N>& value) const {
+    size_t bits = N;
+    while (bits > 0 && not n.bit(bits - 1)) bits--;
+    return sig.size() == (bits + 7) / 8 && value < n;
+  }
   template <typename Hash>
   bool validatePkcs1_5Signature(std::span<const uint8_t> data, std::span<const uint8_t> sig) const {
+    if (not isPossibleSignature(sig, bignum<N>(sig))) return false;
+    if (sig.size() < Hash::getAsn1Id().size() + Hash::hashsize + 11) return false;
     std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, sig.size());
     std::reverse(hash.begin(), hash.end());
     return bignum<N>(hash) == rsaep(bignum<N>(sig));
@@ -114,6 +122,8 @@ struct rsa_public_key {
     std::vector<uint8_t> sigR(sig.begin(), sig.end());
     std::reverse(sigR.begin(), sigR.end());
     bignum<N> sigBN = bignum<N>(sigR);
+    if (not isPossibleSignature(sig, sigBN)) return false;
+    if (sig.size() < Hash::hashsize + MGF::hashsize + 2) return false;
     std::vector<uint8_t> dSigV = rsaep(sigBN).as_bytes();
     dSigV.resize(sig.size());
     std::reverse(dSigV.begin(), dSigV.end());
-- 
2.43.0


From 420cf9ca51b322c216cc0648e3d517372cbd595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 10/21] fix: PKCS#1 v1.5 signatures made by sign() can be
 validated

Signing produced a big-endian signature of varying length, validation expected
it in reverse. Both now use the fixed-length big-endian form of RFC8017, as
PSS already did.
---
 include/caligo/rsa.h    | 9 ++++++---
 src/X509Certificate.cpp | 5 +----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/caligo/rsa.h b/include/caligo/rsa.h
index cb2522b..c4baa24 100644
--- a/include/caligo/rsa.h
+++ b/include/caligo/rsa.h
@@ -111,11 +111,14 @@ struct rsa_public_key {
   }
   template <typename Hash>
   bool validatePkcs1_5Signature(std::span<const uint8_t> data, std::span<const uint8_t> sig) const {
-    if (not isPossibleSignature(sig, bignum<N>(sig))) return false;
+    std::vector<uint8_t> sigR(sig.begin(), sig.end());
+    std::reverse(sigR.begin(), sigR.end());
+    bignum<N> sigBN = bignum<N>(sigR);
+    if (not isPossibleSignature(sig, sigBN)) return false;
     if (sig.size() < Hash::getAsn1Id().size() + Hash::hashsize + 11) return false;
     std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, sig.size());
     std::reverse(hash.begin(), hash.end());
-    return bignum<N>(hash) == rsaep(bignum<N>(sig));
+    return bignum<N>(hash) == rsaep(sigBN);
   }
   template <typename Hash, typename MGF>
   bool validatePssSignature(std::span<const uint8_t> message, std::span<const uint8_t> sig) const {
@@ -157,7 +160,7 @@ struct rsa_private_key {
     std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, actualN / 8);
     std::reverse(hash.begin(), hash.end());
     std::vector<uint8_t> signature = rsadp(bignum<N>(hash)).as_bytes();
-    while (signature[signature.size() - 1] == 0 && (signature[signature.size() - 2] & 0x80) == 0x00) signature.pop_back();
+    signature.resize(actualN / 8);
     std::reverse(signature.begin(), signature.end());
     return signature;
   }
diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 8dd5816..8664b5f 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -387,10 +387,7 @@ bool x509certificate::verify(x509certificate& issuer) {
 
   asn1_view algov(algo);
   auto [six, oid] = algov.read();
-  std::vector<uint8_t> signature;
-  for (size_t n = 0; n < sig.size() - 1; n++) {
-    signature.push_back(sig[sig.size() - n - 1]);
-  }
+  std::span<const uint8_t> signature = sig.subspan(1);
   object_id objid{oid};
   Tls13SignatureScheme type = Tls13SignatureScheme::rsa_pkcs1_sha256;
   if (objid == object_id::SignatureType::RsaSHA256) {
-- 
2.43.0


From d8a4b59a0a87265e5b04a8ec66de1a112a4daacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 11/21] fix: hash the message with the selected hash in RSA-PSS
 signing

rsa_pss_*_sha384 and sha512 signed a SHA-256 digest and never validated.
---
 src/X509Certificate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 8664b5f..104f232 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -88,12 +88,12 @@ std::vector<uint8_t> RsaPrivateKey::sign(Tls13SignatureScheme type, std::span<co
   case Tls13SignatureScheme::rsa_pss_pss_sha384:
     salt.resize(48);
     Caligo::generate_random(salt);
-    return privkey.signPssSignature<Caligo::SHA2<384>, Caligo::MGF1<Caligo::SHA2<384>>>(Caligo::SHA2<256>(data).data(), salt);
+    return privkey.signPssSignature<Caligo::SHA2<384>, Caligo::MGF1<Caligo::SHA2<384>>>(Caligo::SHA2<384>(data).data(), salt);
   case Tls13SignatureScheme::rsa_pss_rsae_sha512:
   case Tls13SignatureScheme::rsa_pss_pss_sha512:
     salt.resize(64);
     Caligo::generate_random(salt);
-    return privkey.signPssSignature<Caligo::SHA2<512>, Caligo::MGF1<Caligo::SHA2<512>>>(Caligo::SHA2<256>(data).data(), salt);
+    return privkey.signPssSignature<Caligo::SHA2<512>, Caligo::MGF1<Caligo::SHA2<512>>>(Caligo::SHA2<512>(data).data(), salt);
   default:
     return {};
   }
-- 
2.43.0


From cdba7a3c79b357f3c25dce5f435338fc6e7a17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 12/21] fix: HMAC block size and long keys

HMAC padded to twice the digest size, which is only the block size for
SHA2-256 and SHA2-512, and truncated longer keys instead of hashing them.
---
 include/caligo/hkdf.h | 9 +++++++--
 include/caligo/md5.h  | 1 +
 include/caligo/sha1.h | 1 +
 include/caligo/sha2.h | 4 ++++
 include/caligo/sha3.h | 1 +
 5 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/caligo/hkdf.h b/include/caligo/hkdf.h
index 16362a1..2e39946 100644
--- a/include/caligo/hkdf.h
+++ b/include/caligo/hkdf.h
@@ -10,9 +10,14 @@ namespace Caligo {
 
 template <typename Hash>
 std::array<uint8_t, Hash::hashsize> HMAC(std::span<const uint8_t> text, std::span<const uint8_t> key) {
+  std::array<uint8_t, Hash::hashsize> keyhash;
+  if (key.size() > Hash::blocksize) {
+    keyhash = Hash(key);
+    key = keyhash;
+  }
   std::vector<uint8_t> o(key.begin(), key.end()), i(key.begin(), key.end());
-  o.resize(Hash::hashsize*2);
-  i.resize(Hash::hashsize*2);
+  o.resize(Hash::blocksize);
+  i.resize(Hash::blocksize);
   for (auto& c : o) c ^= 0x5C;
   for (auto& c : i) c ^= 0x36;
   i.insert(i.end(), text.begin(), text.end());
diff --git a/include/caligo/md5.h b/include/caligo/md5.h
index 268fc8f..caf642b 100644
--- a/include/caligo/md5.h
+++ b/include/caligo/md5.h
@@ -10,6 +10,7 @@ namespace Caligo {
 
 struct MD5 {
   static constexpr size_t hashsize = 16;
+  static constexpr size_t blocksize = 64;
   MD5();
   template <typename... T>
   inline MD5(T... ts)
diff --git a/include/caligo/sha1.h b/include/caligo/sha1.h
index 5d3f3e2..fc8564c 100644
--- a/include/caligo/sha1.h
+++ b/include/caligo/sha1.h
@@ -10,6 +10,7 @@ namespace Caligo {
 
 struct SHA1 {
   static constexpr size_t hashsize = 20;
+  static constexpr size_t blocksize = 64;
   SHA1();
   template <typename... T>
   inline SHA1(T... ts)
diff --git a/include/caligo/sha2.h b/include/caligo/sha2.h
index 0f43f9c..c0bb4b9 100644
--- a/include/caligo/sha2.h
+++ b/include/caligo/sha2.h
@@ -14,6 +14,7 @@ struct SHA2;
 template <>
 struct SHA2<256> {
   static constexpr size_t hashsize = 32;
+  static constexpr size_t blocksize = 64;
   SHA2();
   template <typename... T>
   inline SHA2(T... ts)
@@ -44,6 +45,7 @@ protected:
 template <>
 struct SHA2<224> : private SHA2<256> {
   static constexpr size_t hashsize = 28;
+  static constexpr size_t blocksize = 64;
   inline SHA2() {
     sha224_override();
   }
@@ -77,6 +79,7 @@ struct SHA2<224> : private SHA2<256> {
 template <>
 struct SHA2<512> {
   static constexpr size_t hashsize = 64;
+  static constexpr size_t blocksize = 128;
   SHA2();
   template <typename... T>
   inline SHA2(T... ts)
@@ -107,6 +110,7 @@ protected:
 template <>
 struct SHA2<384> : private SHA2<512> {
   static constexpr size_t hashsize = 48;
+  static constexpr size_t blocksize = 128;
   inline SHA2() {
     sha384_override();
   }
diff --git a/include/caligo/sha3.h b/include/caligo/sha3.h
index 57e8d01..d18c0a2 100644
--- a/include/caligo/sha3.h
+++ b/include/caligo/sha3.h
@@ -12,6 +12,7 @@ template <size_t size>
 struct SHA3 {
   static constexpr size_t hashsize = size/8;
   static constexpr size_t r = 1600 - 2 * size;
+  static constexpr size_t blocksize = r / 8;
   SHA3();
   template <typename... T>
   inline SHA3(T... ts)
-- 
2.43.0


From 409c91eedea32e9f41683f1bbfeb7ad8ecf69c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 13/21] fix: selection of sha3-256 and of unknown hashes by
 name

"sha3-256" and every unknown name silently selected SHA3-512.
---
 src/hash.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index 6cd817c..3b407ae 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -22,11 +22,11 @@ struct Hash::Impl {
       impl.emplace<SHA2<512>>();
     } else if (hashName == "sha3-224") {
       impl.emplace<SHA3<224>>();
-    } else if (hashName == "sha2-256") {
+    } else if (hashName == "sha3-256") {
       impl.emplace<SHA3<256>>();
     } else if (hashName == "sha3-384") {
       impl.emplace<SHA3<384>>();
-    } else if ("sha3-512") {
+    } else if (hashName == "sha3-512") {
       impl.emplace<SHA3<512>>();
     } else {
       throw std::runtime_error("Invalid hash selected");
-- 
2.43.0


From cc4d514fb38cb7bc4499c3d495c658d886415b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 14/21] fix: hexadecimal form of SHA2-224 and SHA2-384 digests

The string conversion returned the untruncated internal digest.
---
 include/caligo/sha2.h | 4 ++--
 src/sha2.cpp          | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/caligo/sha2.h b/include/caligo/sha2.h
index c0bb4b9..7381eac 100644
--- a/include/caligo/sha2.h
+++ b/include/caligo/sha2.h
@@ -66,7 +66,7 @@ struct SHA2<224> : private SHA2<256> {
     return hashcopy;
   }
   std::array<uint8_t, hashsize> data() const { return *this; }
-  using SHA2<256>::operator std::string;
+  operator std::string() const;
   using SHA2<256>::add;
   static inline std::vector<uint8_t> getAsn1Id() {
     return std::initializer_list<uint8_t>{ 0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x04, 0x05, 0x00, 0x04, 0x1c };
@@ -131,7 +131,7 @@ struct SHA2<384> : private SHA2<512> {
     return hashcopy;
   }
   std::array<uint8_t, hashsize> data() const { return *this; }
-  using SHA2<512>::operator std::string;
+  operator std::string() const;
   using SHA2<512>::add;
   static inline std::vector<uint8_t> getAsn1Id() {
     return std::initializer_list<uint8_t>{ 0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05, 0x00, 0x04, 0x30 };
diff --git a/src/sha2.cpp b/src/sha2.cpp
index 292877b..5094501 100644
--- a/src/sha2.cpp
+++ b/src/sha2.cpp
@@ -249,6 +249,10 @@ SHA2<512>::operator std::string() const {
   return str;
 }
 
+SHA2<384>::operator std::string() const {
+  return SHA2<512>::operator std::string().substr(0, 2*hashsize);
+}
+
 void SHA2<384>::sha384_override() {
   w[0] = 0xcbbb9d5dc1059ed8;
   w[1] = 0x629a292a367cd507;
@@ -260,6 +264,10 @@ void SHA2<384>::sha384_override() {
   w[7] = 0x47b5481dbefa4fa4;
 }
 
+SHA2<224>::operator std::string() const {
+  return SHA2<256>::operator std::string().substr(0, 2*hashsize);
+}
+
 void SHA2<224>::sha224_override() {
   w[0] = 0xc1059ed8;
   w[1] = 0x367cd507;
-- 
2.43.0


From 0ae9946ed7dd745ec9dda3edd7b375af3686ed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 15/21] fix: TLS 1.3 secret update, exporter and resumption
 secrets

These could not be instantiated, used the wrong context for the update
(RFC8446, 7.2 has it empty) and a fixed length instead of the hash's.
---
 include/caligo/hkdf.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/caligo/hkdf.h b/include/caligo/hkdf.h
index 2e39946..cb26f17 100644
--- a/include/caligo/hkdf.h
+++ b/include/caligo/hkdf.h
@@ -92,18 +92,21 @@ secret<Hash> HKDF_MasterSecret(secret<Hash> secret) {
 }
 
 template <typename Hash>
-secret<Hash> HKDF_UpdateSecret(secret<Hash> secret) {
-  return {HKDF_Expand_Label<Hash>(secret.data, "traffic upd", Hash(), Hash::hashsize)};
+secret<Hash> HKDF_UpdateSecret(secret<Hash> current) {
+  std::vector<uint8_t> next = HKDF_Expand_Label<Hash>(current.data, "traffic upd", {}, Hash::hashsize);
+  secret<Hash> rv;
+  std::copy(next.begin(), next.end(), rv.data.begin());
+  return rv;
 }
 
 template <typename Hash>
 std::vector<uint8_t> exporter_master(secret<Hash>& h, std::span<const uint8_t> hash) {
-  return HKDF_Expand_Label(h.data, "exp master", hash, 32);
+  return HKDF_Expand_Label<Hash>(h.data, "exp master", hash, Hash::hashsize);
 }
 
 template <typename Hash>
 std::vector<uint8_t> resumption_master(secret<Hash>& h, std::span<const uint8_t> hash) {
-  return HKDF_Expand_Label(h.data, "res master", hash, 32);
+  return HKDF_Expand_Label<Hash>(h.data, "res master", hash, Hash::hashsize);
 }
 
 }
-- 
2.43.0


From 38479219b805affa1836baf90a85389889aea4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 16/21] fix: take random values from the system

The generator was a fixed-seed LCG with unsynchronized state: every process
produced the same keys and salts, and threads could draw the same values.
---
 include/caligo/random.h | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/include/caligo/random.h b/include/caligo/random.h
index cb3869b..236f91a 100644
--- a/include/caligo/random.h
+++ b/include/caligo/random.h
@@ -2,8 +2,11 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <cerrno>
 #include <span>
+#include <stdexcept>
 #include <vector>
+#include <sys/random.h>
 
 namespace Caligo {
 
@@ -15,23 +18,17 @@ inline uint64_t generate_random_value() {
     testValues.pop_back();
     return value;
   }
-  // LCG, using only the major 32 bits to have high enough entropy in those. Still a PRNG.
-  static const uint64_t A = 6364136223846793005;
-  static const uint64_t C = 1442695040888963407;
-  static uint64_t cval = 0xa9782365ba09625b;
-#ifdef PLATFORM_HAS_RDSEED
   uint64_t value;
-  asm volatile ("rdseed" :: "=a"(value));
-  cval ^= (value & 0xFFFFFFFF);
-#endif
-  cval = (cval * A) + C;
-  uint64_t rv = (cval) & 0xFFFFFFFF00000000ULL;
-#ifdef PLATFORM_HAS_RDSEED
-  cval ^= (value >> 32);
-#endif
-  cval = (cval * A) + C;
-  rv |= (cval >> 32) & 0xFFFFFFFF;
-  return rv;
+  size_t filled = 0;
+  while (filled < sizeof(value)) {
+    ssize_t count = getrandom((uint8_t*)&value + filled, sizeof(value) - filled, 0);
+    if (count > 0) {
+      filled += count;
+    } else if (count == 0 || errno != EINTR) {
+      throw std::runtime_error("No random data available");
+    }
+  }
+  return value;
 }
 
 inline void generate_random(std::span<uint64_t> target) {
-- 
2.43.0


From 4290631d71afebfe2cf0e148fe5c3da0d707fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 17/21] fix: mask the most significant bit of X25519 public
 values

RFC7748 requires it; without, peers sending it set derive another secret.
---
 include/caligo/x25519.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/caligo/x25519.h b/include/caligo/x25519.h
index 020bdad..a8f4eac 100644
--- a/include/caligo/x25519.h
+++ b/include/caligo/x25519.h
@@ -120,6 +120,7 @@ struct ec_value {
 
 inline ec_value X25519(ec_value k, ec_value u) {
    k.normalize();
+   u.v.clear_bit(255); // RFC7748, chapter 5: implementations MUST mask the most significant bit
 
    ec_value x_2 = {1};
    ec_value z_2 = {0};
-- 
2.43.0


From 3b3dc10a0eba2350907ff4b3d5767f9357180dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:01 +0000
Subject: [PATCH 18/21] fix: refuse AES keys of the wrong length

A 128-bit key schedule copied any number of key bytes over itself, and a
256-bit one read past the end of a short key, before CTR could refuse it.
---
 src/aes.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aes.cpp b/src/aes.cpp
index a2ca037..beda9c6 100644
--- a/src/aes.cpp
+++ b/src/aes.cpp
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <stdexcept>
 #include <vector>
 #ifdef __x86_64__
 #include <x86intrin.h>
@@ -19,6 +20,7 @@ static __m128i nextRoundKey(__m128i in) {
 
 template <>
 AesKeySchedule<128>::AesKeySchedule(std::span<const uint8_t> key) {
+  if (key.size() != 16) throw std::runtime_error("Invalid key size");
   std::memcpy(eroundKeys, key.data(), key.size());
 
   eroundKeys[1] = nextRoundKey<0>(eroundKeys[0]);
@@ -35,6 +37,7 @@ AesKeySchedule<128>::AesKeySchedule(std::span<const uint8_t> key) {
 
 template <>
 AesKeySchedule<256>::AesKeySchedule(std::span<const uint8_t> key) {
+  if (key.size() != 32) throw std::runtime_error("Invalid key size");
   __m128i a = _mm_loadu_si128((__m128i*)key.data()), b = _mm_loadu_si128((__m128i*)(key.data()+16));
   eroundKeys[0]=a;
   eroundKeys[1]=b;
-- 
2.43.0


From f7dd57628e753655bef77c74ef1f3cfb036b4b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:27 +0000
Subject: [PATCH 19/21] fix: report an unreadable or incompletely read CA
 bundle instead of keeping a partial trust store

---
 src/Truststore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Truststore.cpp b/src/Truststore.cpp
index 57efabb..2a056da 100644
--- a/src/Truststore.cpp
+++ b/src/Truststore.cpp
@@ -2,6 +2,7 @@
 
 #include <fstream>
 #include <optional>
+#include <stdexcept>
 
 namespace Caligo {
 
@@ -15,6 +16,7 @@ Truststore::Truststore() {
   std::vector<uint8_t> buffer;
   buffer.resize(std::filesystem::file_size("/etc/ssl/certs/ca-certificates.crt"));
   in.read((char*)buffer.data(), buffer.size());
+  if (not in) throw std::runtime_error("Cannot read /etc/ssl/certs/ca-certificates.crt");
   std::vector<x509certificate> certs = parseCertificatesPem(buffer);
   for (auto& cert : certs) {
     if (cert.derCert.empty()) continue;
-- 
2.43.0


From ee5f6ba07ee630d235ed22db7f6961a4ac453176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:27 +0000
Subject: [PATCH 20/21] fix: a certificate with a refused key no longer makes
 the whole bundle unusable

---
 src/X509Certificate.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 104f232..2881276 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -9,6 +9,7 @@
 #include <caligo/pkcs1.h>
 
 #include <optional>
+#include <stdexcept>
 
 namespace Caligo {
 
@@ -340,6 +341,16 @@ x509certificate parseCertificate(std::span<const uint8_t> in, DataFormat format)
   return x;
 }
 
+// A certificate with a refused key must not make the others of its bundle unusable; like any other
+// unsupported certificate it is replaced by an empty one.
+static x509certificate parseBundledCertificate(std::span<const uint8_t> in) {
+  try {
+    return parseCertificate(in, DataFormat::Pem);
+  } catch (const std::runtime_error&) {
+    return {};
+  }
+}
+
 std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
   std::vector<x509certificate> certs;
   std::string_view buffer((const char*)in.data(), in.size());
@@ -351,13 +362,13 @@ std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
     std::string_view certpem = std::string_view(buffer).substr(start, end - start);
 
     std::span<const uint8_t> av(std::span<const uint8_t>((const uint8_t*)certpem.data(), certpem.size()));
-    certs.push_back(parseCertificate(av, DataFormat::Pem));
+    certs.push_back(parseBundledCertificate(av));
     start = end;
     end = buffer.find("-----BEGIN CERTIFICATE-----", start + 1);
   }
 
   std::span<const uint8_t> av(std::span<const uint8_t>((const uint8_t*)buffer.data() + start, buffer.size() - start));
-  certs.push_back(parseCertificate(av, DataFormat::Pem));
+  certs.push_back(parseBundledCertificate(av));
   return certs;
 }
 
-- 
2.43.0


From 6b8e68a366a9611f97e50ba45493232cf5cee3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:55 +0000
Subject: [PATCH 21/21] fix: refuse to sign with a key too short for the
 signature scheme

---
 include/caligo/pkcs1.h | 3 +++
 include/caligo/rsa.h   | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/caligo/pkcs1.h b/include/caligo/pkcs1.h
index d32fdf1..621546c 100644
--- a/include/caligo/pkcs1.h
+++ b/include/caligo/pkcs1.h
@@ -1,9 +1,12 @@
 #pragma once
 
+#include <stdexcept>
+
 namespace Caligo {
 
 template <typename Hash>
 std::vector<uint8_t> PKCS1(std::span<const uint8_t> data, size_t requestedSize) {
+  if (requestedSize < Hash::getAsn1Id().size() + Hash::hashsize + 11) throw std::runtime_error("Key too short for this signature");
   std::vector<uint8_t> rv;
   rv.push_back(0);
   rv.push_back(1);
diff --git a/include/caligo/rsa.h b/include/caligo/rsa.h
index c4baa24..d5d2ae3 100644
--- a/include/caligo/rsa.h
+++ b/include/caligo/rsa.h
@@ -11,6 +11,7 @@
 #include <vector>
 #include <cstdint>
 #include <cstdio>
+#include <stdexcept>
 
 namespace Caligo {
 
@@ -66,6 +67,7 @@ std::vector<uint8_t> getSalt(std::span<const uint8_t> sig) {
 
 template <typename Hash>
 std::vector<uint8_t> generatePssData(std::span<const uint8_t> data, std::span<const uint8_t> salt, size_t desiredLength) {
+  if (desiredLength < Hash::hashsize + salt.size() + 2) throw std::runtime_error("Key too short for this signature");
   Hash Hh;
   Hh.add(std::vector<uint8_t>({0,0,0,0,0,0,0,0}));
   Hh.add(data);
-- 
2.43.0

