// C17: prime generation against a scripted entropy source. The candidates are observed by drawing random numbers from an identical
// source; the reference decides which of them is the first prime.
#include "sim.h"
#include "oracle.h"
#include <caligo/random_prime.h>
#include "pseudo.h"
#include <cerrno>
using namespace sim;
static Bytes unhex(const char* h) { std::string s = h; if (s.size() & 1) s = "0" + s; Bytes b; for (size_t i = 0; i < s.size(); i += 2) b.push_back((u8)strtoul(s.substr(i, 2).c_str(), nullptr, 16)); return b; }
static const size_t NP = sizeof PSEUDO / sizeof *PSEUDO;
static const std::vector<u64> SIZES = {32, 64, 96, 128, 160, 256, 512};
template <size_t N> static Bytes be(const Caligo::bignum<N>& v) { Bytes b = v.as_bytes(); b.resize(N / 8); std::reverse(b.begin(), b.end()); return b; }
template <size_t N> static Caligo::bignum<N> bn(Bytes b) { std::reverse(b.begin(), b.end()); b.resize(N / 8); return Caligo::bignum<N>(std::span<const u8>(b)); }
static void gen(Rng& r, Plan& p, const Tier& t) {
  u64 w = r.below(10); u64 bits = r.chance(1, 2) ? r.pick(std::vector<u64>{32, 64}) : r.pick(std::vector<u64>{96, 128, 160, 256}); if (r.chance(1, t.thorough ? 20 : 60)) bits = 512;
  if (w < 6) { p.push_back(Op("gen", {{"bits", bits}, {"strict", r.below(2)}, {"seed", r.next() >> 20}, {"rounds", bits <= 64 ? r.range(1, 6) : 1}})); u64 n = r.below(12);
    for (u64 i = 0; i < n; i++) p.push_back(Op("cand", {{"kind", r.chance(1, 5) ? r.range(11, 12) : r.below(9)}, {"x", r.next() >> 20}}));
    if (r.chance(1, 3)) p.push_back(Op("fail", {{"at", r.chance(1, 2) ? r.below(10) : r.below(400)}, {"err", r.chance(1, 2) ? EIO : ENOSYS}}));
    u64 m = r.chance(1, 3) ? r.below(6) : 0; for (u64 i = 0; i < m; i++) p.push_back(Op(r.below(2) ? "short" : "intr", {{"at", r.below(40)}, {"n", r.range(1, 7)}}));
  } else { p.push_back(Op("ask", {{"bits", bits}})); u64 n = r.range(5, 40); for (u64 i = 0; i < n; i++) p.push_back(Op("cand", {{"kind", r.below(13)}, {"x", r.next() >> 20}})); }
}
static std::vector<Plan> fixed(const Tier&) {
  std::vector<Plan> v; for (size_t i = 0; i < NP; i++) for (int wide = 0; wide < 2; wide++) { u64 len = (strlen(PSEUDO[i]) + 1) / 2 * 8, bits = wide ? 1344 : len; if (len > bits || !(bits == 1344 || (bits >= 160 && (bits == 160 || bits == 256 || bits == 512 || bits == 1024 || bits == 2048 || bits == 4096)))) continue; Plan p{Op("ask", {{"bits", bits}})}; p.push_back(Op("pseudo", {{"i", i}})); v.push_back(p); }
  for (u64 lo = 0; lo < 10000; lo += 500) v.push_back({Op("ask", {{"bits", 32}}), Op("range", {{"from", lo}, {"n", 500}})});
  for (u64 k = 0; k < 6; k++) v.push_back({Op("ask", {{"bits", 64}}), Op("range", {{"from", 62700000 + k * 300 + 41}, {"n", 300}})});
  return v;
}
static Bytes number(u64 bits, u64 kind, u64 x) { // big endian, bits/8 bytes
  Rng r(x); size_t n = bits / 8; Bytes b = data(x | 5, n); auto prime = [&](size_t m) { Bytes q = data(r.next() | 5, m); q[0] |= 0x80; q[m - 1] |= 1; for (int k = 0; k < 4000 && !oracle::isPrime(q); k++) { Bytes two{2}; q = oracle::addb(q, two, m); } return q; };
  switch (kind) {
    case 0: return b; case 1: return Bytes(n); case 2: return Bytes(n, 0xFF);
    case 3: { for (u64 k = 0; k < NP; k++) { Bytes q = unhex(PSEUDO[(x + k) % NP]); if (q.size() == n) return q; } return b; }
    case 4: return prime(n);
    case 5: { Bytes q = prime(n); q[0] &= 0x7F; return q; }       // a prime once the highest bit is set
    case 6: { Bytes q = prime(n); q[n - 1] &= 0xFE; return q; }   // a prime once the lowest bit is set
    case 7: { Bytes q = prime(n); q[0] |= 0xC0; return q; }
    case 8: { size_t h = n / 2; u64 P = 0, Q = 0; if (n == 4 || n == 8) { Bytes a = prime(h), c = x & 1 ? a : prime(h); for (u8 v : a) P = P << 8 | v; for (u8 v : c) Q = Q << 8 | v; u64 v = P * Q; Bytes o(n); for (size_t i = 0; i < n; i++) o[n - 1 - i] = (u8)(v >> (8 * i)); return o; } return b; } // product or square of two primes
    case 9: { Bytes o(n); u64 v = r.below(20000); for (size_t i = 0; i < std::min<size_t>(8, n); i++) o[n - 1 - i] = (u8)(v >> (8 * i)); return o; }
    case 11: case 12: { Bytes q(n); size_t m = r.chance(1, 2) ? r.range(1, n * 8 - 9) : n * 8 - 8 - r.below(n * 8 / 3); Bytes top = data(r.next() | 5, n), step(n); top[0] |= 0x80; // h*2^m+1 (11) or h*2^m-1 (12): a long run of equal low bits
      for (size_t i = 0; i < n * 8; i++) { size_t at = n - 1 - i / 8; u8 bit = 1 << (i % 8); if (i >= m) q[at] |= top[at] & bit; else if (kind == 12) q[at] |= bit; } if (kind == 11) q[n - 1] |= 1; step[n - 1 - m / 8] = 1 << (m % 8);
      for (int k = 0; k < 3000; k++) { if (oracle::isPrime(q)) return q; Bytes z = oracle::addb(q, step, n); if (z.empty()) break; q = z; } return q; }
    default: { Bytes q = unhex(PSEUDO[x % NP]); if (q.size() > n) return b; q.insert(q.begin(), n - q.size(), 0); return q; } }
}
struct Feed { std::vector<Bytes> cands; u64 seed; size_t per; u64 failAt = ~0ULL; int err = 0; std::map<u64, std::pair<int, u64>> ev; };
static void install(const Feed& f) { entropy::reset(); auto pos = std::make_shared<u64>(0); 
  entropy::install([f, pos](u8* p, size_t n) { for (size_t i = 0; i < n; i++, ++*pos) { u64 k = *pos / f.per, o = *pos % f.per; if (k < f.cands.size()) { const Bytes& b = f.cands[k]; p[i] = o < b.size() ? b[b.size() - 1 - o] : 0; } else p[i] = (u8)(mix(f.seed, *pos / 8) >> (8 * (*pos % 8))); } });
  entropy::script([f](u64 call, size_t) -> EntropyEvent { if (call >= f.failAt) return {3, (u64)f.err}; auto it = f.ev.find(call); if (it != f.ev.end()) return {it->second.first, it->second.second}; return {0, 0}; }); }
template <size_t N, bool strict> static void genRound(Ctx& c, const Feed& f, u64 round) {
  (void)round; std::vector<Bytes> offered; Bytes want; bool threw = false; u64 used = 0;
  install(f); try { for (;;) { auto v = Caligo::bignum<N>::random(); v.set_bit(0); v.set_bit(N - 1); if (strict) v.set_bit(N - 2); Bytes b = be(v); offered.push_back(b); if (oracle::isPrime(b)) { want = b; break; } } } catch (const std::exception&) { threw = true; } used = entropy::issued();
  install(f); Bytes got; bool threw2 = false; try { got = be(Caligo::random_prime<N, strict>()); } catch (const std::exception&) { threw2 = true; } u64 used2 = entropy::issued(); entropy::reset();
  c.note(got); c.shp(offered.size() * 131 + N + threw); std::string at = std::to_string(N) + " bits, " + std::to_string(offered.size()) + " candidates offered";
  if (threw) { c.check(threw2, "prime-without-entropy", at + ": the entropy source failed, yet " + hex(got) + " was returned"); c.probe("entropy failure reported"); return; }
  c.check(!threw2, "gave-up", at); c.check((got[0] & (strict ? 0xC0 : 0x80)) == (strict ? 0xC0 : 0x80), "prime-too-short", at + ": " + hex(got)); c.check(oracle::isPrime(got), "composite-returned", at + ": " + hex(got)); c.check(got == want, "prime-skipped", at + ": returned " + hex(got) + " instead of " + hex(want)); c.check(used == used2, "draws-not-consumed-once", at + ": " + std::to_string(used2) + " bytes drawn instead of " + std::to_string(used));
  c.probe(strict ? "prime generated (strict)" : "prime generated"); if (offered.size() > f.cands.size() && !f.cands.empty()) c.probe("all scripted candidates rejected"); }
template <size_t N> static void doGen(Ctx& c, const Feed& f, bool strict, u64 rounds) { for (u64 i = 0; i < rounds; i++) { Feed g = f; if (i) { g.cands.clear(); g.seed = mix(f.seed, i); } if (strict) genRound<N, true>(c, g, i); else genRound<N, false>(c, g, i); } }
template <size_t N> static void ask(Ctx& c, const Bytes& b) { bool w = oracle::isPrime(b), g = Caligo::miller_rabin_is_probably_prime(bn<N>(b)); c.note(g); c.shp(b.back() + b[0] * 256); if (w) c.check(g, "prime-refused", std::to_string(N) + " bits: " + hex(b)); else c.check(!g, "composite-accepted", std::to_string(N) + " bits: " + hex(b, 200)); c.probe(w ? "primes asked" : "composites asked"); }
#define EACH(X) case 32: X(32); break; case 64: X(64); break; case 96: X(96); break; case 128: X(128); break; case 160: X(160); break; case 256: X(256); break; case 512: X(512); break; case 1344: X(1344); break; case 1024: X(1024); break; case 2048: X(2048); break; case 4096: X(4096); break;
static void run(const Plan& plan, Ctx& c) {
  const Op* head = nullptr; for (auto& op : plan) if (op.k == "gen" || op.k == "ask") { head = &op; break; } if (!head) return; u64 bits = (*head)("bits"); bool isGen = head->k == "gen"; if (bits < 32 || bits % 8) return;
  auto askOne = [&](Bytes b) { size_t n = bits / 8; if (b.size() > n) return; b.insert(b.begin(), n - b.size(), 0); switch (bits) {
#define A(n) ask<n>(c, b)
    EACH(A) } };
  Feed f; f.seed = (*head)("seed"); f.per = (bits + 63) / 64 * 8;
  for (auto& op : plan) { c.step(); if (op.k == "cand") { if (bits > 512) continue; Bytes b = number(bits, op("kind"), op("x")); static const char* nm[] = {"random candidate", "all-zero entropy", "all-ones entropy", "pseudoprime offered", "prime offered", "prime offered", "prime offered", "prime offered", "product of two primes offered", "small number", "pseudoprime offered", "number of the form h*2^m+1 offered", "number of the form h*2^m-1 offered"}; c.fault(nm[op("kind") % 13]); if (isGen) f.cands.push_back(b); else askOne(b); }
    else if (op.k == "pseudo") { c.fault("pseudoprime offered"); askOne(unhex(PSEUDO[op("i") % NP])); }
    else if (op.k == "range") for (u64 v = op("from"); v < op("from") + op("n") && v < op("from") + 5000; v++) { Bytes b(4); for (int i = 0; i < 4; i++) b[3 - i] = v >> (8 * i); askOne(b); c.fault("small number"); }
    else if (op.k == "fail") { f.failAt = op("at"); f.err = (int)op("err", EIO); c.fault("entropy failure scripted"); }
    else if (op.k == "short") { f.ev[op("at")] = {1, op("n")}; c.fault("short entropy read"); } else if (op.k == "intr") { f.ev[op("at")] = {2, 0}; c.fault("interrupted entropy read"); } }
  if (isGen) switch (bits) {
#define G(n) doGen<n>(c, f, (*head)("strict"), std::min<u64>((*head)("rounds", 1), 20))
    case 32: G(32); break; case 64: G(64); break; case 96: G(96); break; case 128: G(128); break; case 160: G(160); break; case 256: G(256); break; case 512: G(512); break; }
}
sim::Scenario sim::scenario{"C17", gen, run, fixed};
