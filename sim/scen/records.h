// Shared by the AES record-channel scenarios.
#pragma once
#include "sim.h"
#include "oracle.h"
#include <caligo/aes.h>
#include <caligo/gcm.h>
#include <caligo/ctr.h>
namespace rec {
using namespace sim;
// moves a session to record number n if its counter is accessible; the caller calibrates before relying on it
template <class T> bool setCounter(T& o, u64 n) { if constexpr (requires { o.message_counter = n; }) { o.message_counter = n; return true; } else return false; }
inline Bytes nonceFor(std::span<const u8> iv, u64 n) { Bytes b(iv.begin(), iv.end()); for (int i = 0; i < 8; i++) b[4 + i] ^= (u8)(n >> (56 - 8 * i)); return b; }
struct Gcm {
  std::unique_ptr<Caligo::GCM<Caligo::AES<128>>> a; std::unique_ptr<Caligo::GCM<Caligo::AES<256>>> b;
  Gcm() {}
  Gcm(const Bytes& key, const Bytes& iv) { if (key.size() == 16) a = std::make_unique<Caligo::GCM<Caligo::AES<128>>>(Caligo::key_iv_pair<Caligo::AES<128>>(key, iv)); else b = std::make_unique<Caligo::GCM<Caligo::AES<256>>>(Caligo::key_iv_pair<Caligo::AES<256>>(key, iv)); }
  Gcm copy() const { Gcm g; if (a) g.a = std::make_unique<Caligo::GCM<Caligo::AES<128>>>(*a); if (b) g.b = std::make_unique<Caligo::GCM<Caligo::AES<256>>>(*b); return g; }
  std::pair<Bytes, std::array<u8, 16>> enc(std::span<const u8> p, std::span<const u8> aad) { Given q(p), x(aad); auto r = a ? a->Encrypt(q.s(), x.s()) : b->Encrypt(q.s(), x.s()); q.ok(); x.ok(); return r; }
  std::pair<Bytes, bool> dec(std::span<const u8> ct, std::span<const u8> aad, std::array<u8, 16> tag) { Given q(ct), x(aad); auto r = a ? a->Decrypt(q.s(), x.s(), tag) : b->Decrypt(q.s(), x.s(), tag); q.ok(); x.ok(); return r; }
  bool counter(u64 n) { return a ? setCounter(*a, n) : setCounter(*b, n); }
};
inline bool gcmCanJump(const Bytes& key) {
  Bytes iv = data(777, 12), pt = data(778, 20), aad = data(779, 5); Gcm g(key, iv); if (!g.counter(3)) return false;
  auto [ct, tag] = g.enc(pt, aad); Bytes rc, rt; oracle::gcm(key, nonceFor(iv, 3), pt, aad, rc, rt); return ct == rc && !memcmp(tag.data(), rt.data(), 16);
}
struct Ctr {
  std::unique_ptr<Caligo::CTR<Caligo::AES<128>>> a; std::unique_ptr<Caligo::CTR<Caligo::AES<256>>> b;
  Ctr() {}
  Ctr(const Bytes& key, const Bytes& iv, bool big) { if (!big) a = std::make_unique<Caligo::CTR<Caligo::AES<128>>>(Caligo::key_iv_pair<Caligo::AES<128>>(key, iv)); else b = std::make_unique<Caligo::CTR<Caligo::AES<256>>>(Caligo::key_iv_pair<Caligo::AES<256>>(key, iv)); }
  Ctr copy() const { Ctr g; if (a) g.a = std::make_unique<Caligo::CTR<Caligo::AES<128>>>(*a); if (b) g.b = std::make_unique<Caligo::CTR<Caligo::AES<256>>>(*b); return g; }
  void enc(std::span<u8> p) { if (a) a->Encrypt(p); else b->Encrypt(p); }
  void dec(std::span<u8> p) { if (a) a->Decrypt(p); else b->Decrypt(p); }
  bool counter(u64 n) { return a ? setCounter(*a, n) : setCounter(*b, n); }
};
inline Bytes ctrStream(const Bytes& key, const Bytes& iv, u64 msg, size_t n) {
  Bytes c = nonceFor(iv, msg); size_t blocks = (n + 15) / 16; Bytes in(blocks * 16); u32 low = (u32)c[12] << 24 | c[13] << 16 | c[14] << 8 | c[15];
  for (size_t i = 0; i < blocks; i++) { low++; memcpy(&in[i * 16], c.data(), 12); in[i * 16 + 12] = low >> 24; in[i * 16 + 13] = low >> 16; in[i * 16 + 14] = low >> 8; in[i * 16 + 15] = low; }
  Bytes o = blocks ? oracle::aesBlock(key, in) : Bytes(); o.resize(n); return o;
}
inline bool ctrCanJump(const Bytes& key) { Bytes iv = data(777, 16), pt(40); Ctr g(key, iv, key.size() == 32); if (!g.counter(3)) return false; g.enc(pt); return pt == ctrStream(key, iv, 3, 40); }
inline size_t recLen(Rng& r) { switch (r.below(9)) { case 0: return 0; case 1: return 1; case 2: return 15 + r.below(3); case 3: return 16 * r.range(1, 8) - 1 + r.below(3); case 4: return r.below(16); case 5: return r.below(600); case 6: return r.chance(1, 8) ? (r.chance(1, 2) ? (1u << r.range(9, 17)) - 20 + r.below(40) : r.below(70000)) : 32; case 7: return 16 * r.range(1, 20); default: return r.below(100); } }
inline u64 jumpTo(Rng& r) { u64 b = 1ULL << (8 * r.range(1, 7)); return r.chance(1, 6) ? ~0ULL - r.range(1, 6) : r.chance(1, 4) ? r.next() >> 1 : b - r.range(0, 4); }
}
