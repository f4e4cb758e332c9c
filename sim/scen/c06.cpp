// C06: AES-GCM record channel between two peers over a network that drops, duplicates, reorders, corrupts and mixes sessions.
#include "records.h"
using namespace sim; using namespace rec;
// plan: "sess s key big ivk iv" | "send s len aad d" | "dlv s rec mut x y" (deliver record rec of session 'from' to s's receiver)
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 n = r.range(1, 3); u64 rate = r.pick(std::vector<u64>{0, 1, 3, 6}); u64 sameKey = r.below(2), key = dataSeed(r), iv = dataSeed(r); u64 big = r.below(2);
  if (r.chance(1, 3)) p.push_back(Op("poison", {{"b", r.below(256)}}));
  for (u64 i = 0; i < n; i++) { u64 ivk = r.chance(3, 5) ? 12 : r.chance(1, 4) ? 8 : r.chance(1, 3) ? 16 : r.range(13, 80); bool j0 = r.chance(1, 6);
    p.push_back(Op("sess", {{"s", i}, {"key", sameKey ? key : dataSeed(r)}, {"big", sameKey ? big : r.below(2)}, {"ivlen", ivk}, {"iv", r.chance(1, 3) ? iv : dataSeed(r)}, {"wk", r.chance(1, 2) ? 32 : r.range(8, 31)}, {"j0", j0 ? r.range(0, 40) + 1 : 0}}));
    if (r.chance(1, 3)) p.push_back(Op("jump", {{"s", i}, {"n", jumpTo(r)}})); }
  std::vector<u64> sent(n), pos(n); u64 steps = r.range(3, 40);
  std::vector<std::vector<u64>> net(n);
  for (u64 i = 0; i < steps; i++) {
    u64 s = r.below(n);
    if (sent[s] == 0 || r.chance(1, 2)) { p.push_back(Op("send", {{"s", s}, {"len", recLen(r)}, {"aad", r.chance(1, 2) ? r.below(40) : recLen(r) % 3000}, {"d", dataSeed(r)}})); net[s].push_back(sent[s]++); if (r.chance(rate, 12)) { net[s].pop_back(); p.push_back(Op("lost", {{"s", s}})); } else if (r.chance(rate, 12)) net[s].push_back(net[s].back()); }
    else if (!net[s].empty()) { size_t at = r.chance(rate, 12) ? r.below(net[s].size()) : 0; u64 rec = net[s][at]; net[s].erase(net[s].begin() + at); u64 mut = r.chance(rate, 12) ? r.range(1, 12) : 0; u64 from = (n > 1 && r.chance(rate, 24)) ? r.below(n) : s;
      p.push_back(Op("dlv", {{"s", s}, {"from", from}, {"rec", rec}, {"mut", mut}, {"x", r.next() >> 20}, {"y", r.next() >> 20}})); if (r.chance(rate, 20)) net[s].insert(net[s].begin(), rec); pos[s]++; }
    if (r.chance(1, 14)) p.push_back(Op("flips", {{"s", s}, {"x", r.next() >> 20}}));
    if (r.chance(1, 20)) p.push_back(Op("resync", {{"s", s}}));
    if (r.chance(1, 30)) p.push_back(Op("snap", {{"s", s}}));
  }
}
static std::vector<Plan> fixed(const Tier& t) {
  std::vector<Plan> v;
  for (u64 big : {0, 1}) for (u64 ivl : {12, 16, 8, 60}) { Plan p{Op("sess", {{"s", 0}, {"key", 5 + big}, {"big", big}, {"ivlen", ivl}, {"iv", 77}}), Op("many", {{"s", 0}, {"n", t.thorough ? 3000000 : 70000}})}; v.push_back(p); }
  for (u64 big : {0, 1}) v.push_back({Op("sess", {{"s", 0}, {"key", 5}, {"big", big}, {"ivlen", 12}, {"iv", 77}}), Op("send", {{"s", 0}, {"len", 1100000}, {"aad", 70000}, {"d", 55}}), Op("dlv", {{"s", 0}, {"rec", 0}}), Op("send", {{"s", 0}, {"len", 33}, {"aad", 1200000}, {"d", 56}}), Op("dlv", {{"s", 0}, {"rec", 1}})});
  v.push_back({Op("sess", {{"s", 0}, {"key", 5}, {"big", 0}, {"ivlen", 12}, {"iv", 78}}), Op("send", {{"s", 0}, {"len", (256 << 20) + 100}, {"aad", 3}, {"d", 55}}), Op("dlv", {{"s", 0}, {"rec", 0}})});
  for (u64 k = 8; k <= 17; k++) for (u64 d : {(u64)-1, (u64)0, (u64)1, (u64)23}) { Plan p{Op("sess", {{"s", 0}, {"key", 5 + k}, {"big", k & 1}, {"ivlen", 12}, {"iv", 79 + d}})}; u64 n = 0; for (u64 a : {0, 5, 13}) { p.push_back(Op("send", {{"s", 0}, {"len", (1ULL << k) + d}, {"aad", a}, {"d", 55 + a}})); p.push_back(Op("flips", {{"s", 0}, {"x", k * 100 + a + 1}})); p.push_back(Op("dlv", {{"s", 0}, {"rec", n++}})); } for (u64 a : {0, 7}) { p.push_back(Op("send", {{"s", 0}, {"len", a}, {"aad", (1ULL << k) + d}, {"d", 55 + a}})); p.push_back(Op("flips", {{"s", 0}, {"x", k * 100 + a + 1}})); p.push_back(Op("dlv", {{"s", 0}, {"rec", n++}})); } v.push_back(p); }
  if (t.thorough) v.push_back({Op("sess", {{"s", 0}, {"key", 5}, {"big", 1}, {"ivlen", 12}, {"iv", 78}}), Op("send", {{"s", 0}, {"len", 3}, {"aad", (520ULL << 20) + 5}, {"d", 55}}), Op("dlv", {{"s", 0}, {"rec", 0}})});
  return v;
}
static void run(const Plan& plan, Ctx& c) {
  struct Rec { Bytes ct, aad, pt; std::array<u8, 16> tag; u64 n; };
  struct S { Gcm tx, rx; Bytes key, iv; u64 txn = 0, rxn = 0, ivSeed = 0; std::vector<Rec> recs; bool pure = true; }; std::map<u64, S> s;
  auto present = [&](S& x, const Bytes& ct, const Bytes& aad, std::array<u8, 16> tag, const char* what) {
    if (x.rxn == ~0ULL) return false;   // record numbers are used up: the session ends here
    // exact-size copies so that over-reads are visible, and inputs must stay untouched
    auto cb = std::make_unique<u8[]>(ct.size()); memcpy(cb.get(), ct.data(), ct.size()); auto ab = std::make_unique<u8[]>(aad.size()); memcpy(ab.get(), aad.data(), aad.size());
    auto [pt, ok] = x.rx.dec({cb.get(), ct.size()}, {ab.get(), aad.size()}, tag);
    c.check(!memcmp(cb.get(), ct.data(), ct.size()) && !memcmp(ab.get(), aad.data(), aad.size()), "input-modified", what);
    const Rec* want = nullptr; for (auto& r : x.recs) if (r.n == x.rxn) want = &r;
    bool should = want && want->ct == ct && want->aad == aad && want->tag == tag;
    std::string at = std::string(what) + " at receive position " + std::to_string(x.rxn) + ", ciphertext " + std::to_string(ct.size()) + " aad " + std::to_string(aad.size()) + " iv " + std::to_string(x.iv.size());
    if (should) { c.check(ok, "genuine-rejected", at); c.check(pt == want->pt, "plaintext-differs", at + ": " + firstDiff(pt, want->pt)); c.probe("accepted"); }
    else { c.check(!ok, "forgery-accepted", at); c.probe("rejected"); }
    x.rxn++; c.note(ok); if (ok) c.note(pt);
    return ok;
  };
  for (auto& op : plan) {
    c.step(); u64 k = 0; for (char ch : op.k) k = k * 31 + ch; c.shp(k * 977 + op("s") * 31 + op("mut") * 7919 + op("rec") * 131 + std::min<u64>(op("len"), 200));
    if (op.k == "poison") { alloc::fillPattern((u8)op("b")); continue; }
    if (op.k == "sess") { S x; x.ivSeed = op("iv"); x.key = data(op("key"), op("big") ? 32 : 16); x.iv = data(op("iv"), op("ivlen"));
      if (op("j0")) { Bytes j = data(op("iv"), 16); u32 low = (u32)(1ULL << (op("wk", 32) & 63)) - (u32)(op("j0") - 1); for (int i = 0; i < 4; i++) j[12 + i] = low >> (24 - 8 * i); x.iv = oracle::gcmIvFor(x.key, j); c.probe("counter block wraps"); }
      if (x.iv.size() != 8 && x.iv.size() < 12) continue;
      x.tx = Gcm(x.key, x.iv); x.rx = Gcm(x.key, x.iv); s[op("s")] = std::move(x); continue; }
    auto it = s.find(op("s")); if (it == s.end()) continue; S& x = it->second;
    if (op.k == "jump") { if (!gcmCanJump(x.key)) continue; u64 n = op("n"); if (n < x.txn || n < x.rxn) continue; x.tx.counter(n); x.rx.counter(n); x.txn = x.rxn = n; c.fault("record number fast-forward"); }
    else if (op.k == "send") {
      if (x.txn == ~0ULL) continue; Rec r; r.pt = data(op("d"), op("len")); r.aad = data(op("d") + 16, op("aad")); r.n = x.txn++; auto [ct, tag] = x.tx.enc(r.pt, r.aad); r.ct = ct; r.tag = tag;
      c.check(r.ct.size() == r.pt.size(), "ciphertext-length", std::to_string(r.ct.size()) + " for " + std::to_string(r.pt.size()));
      if (x.iv.size() == 12 || r.n == 0) { Bytes rc, rt; oracle::gcm(x.key, x.iv.size() == 12 ? nonceFor(x.iv, r.n) : x.iv, r.pt, r.aad, rc, rt);
        std::string at = "record " + std::to_string(r.n) + " length " + std::to_string(r.pt.size()) + " aad " + std::to_string(r.aad.size()) + " iv length " + std::to_string(x.iv.size());
        c.check(r.ct == rc, "not-aes-gcm", at + ": " + firstDiff(r.ct, rc)); c.check(!memcmp(rt.data(), r.tag.data(), 16), "not-aes-gcm-tag", at); c.probe("conforms to SP 800-38D"); }
      c.note(r.ct); c.note(std::span<const u8>(r.tag)); x.recs.push_back(std::move(r));
    } else if (op.k == "lost") c.fault("record lost");
    else if (op.k == "resync") { // the receiver reconnects its position to the sender's (a retransmission layer would ask for this)
      if (x.rxn == x.txn || x.rxn > x.txn) continue; while (x.rxn < x.txn) { Rec* g = nullptr; for (auto& r : x.recs) if (r.n == x.rxn) g = &r; if (!g) break; present(x, g->ct, g->aad, g->tag, "in order"); } }
    else if (op.k == "snap") { x.rx = x.rx.copy(); x.tx = x.tx.copy(); c.fault("session objects copied"); }
    else if (op.k == "dlv") {
      auto f = s.find(op("from", op("s"))); if (f == s.end() || f->second.recs.empty()) continue; if (&f->second != &x) {
        // two sessions with the same key are only separate sessions if their nonces are (a record of a twin is genuine)
        if (f->second.key == x.key && (f->second.ivSeed == x.ivSeed || (x.ivSeed & 15) < 5 || (f->second.ivSeed & 15) < 5)) continue; c.fault("record of another session"); }
      Rec r = f->second.recs[op("rec") % f->second.recs.size()]; const char* what = "unmodified record"; u64 X = op("x"), Y = op("y");
      if (&f->second == &x) { if (r.n < x.rxn) c.fault("record replayed or late"); else if (r.n > x.rxn) c.fault("record early (gap)"); }
      switch (op("mut")) {
        case 1: if (!r.ct.empty()) { r.ct[Y >> 8 & 1 ? r.ct.size() - 1 - X % std::min<size_t>(r.ct.size(), 17) : X % r.ct.size()] ^= 1 << (Y % 8); what = "bit flipped in ciphertext"; c.fault("bit flip in ciphertext"); } break;
        case 2: r.tag[X % 16] ^= 1 << (Y % 8); what = "bit flipped in tag"; c.fault("bit flip in tag"); break;
        case 3: if (!r.aad.empty()) { r.aad[X % r.aad.size()] ^= 1 << (Y % 8); what = "bit flipped in additional data"; c.fault("bit flip in additional data"); } break;
        case 4: if (!r.ct.empty()) { r.ct.resize(X % r.ct.size()); what = "ciphertext truncated"; c.fault("ciphertext truncated"); } break;
        case 5: { size_t n = 1 + X % 33; r.ct.resize(r.ct.size() + n, Y & 1 ? 0 : (u8)Y); what = "ciphertext extended"; c.fault("ciphertext extended"); break; }
        case 6: if (!r.aad.empty()) { r.aad.resize(X % r.aad.size()); what = "additional data truncated"; c.fault("additional data truncated"); } break;
        case 7: { size_t n = 1 + X % 33; r.aad.resize(r.aad.size() + n, Y & 1 ? 0 : (u8)Y); what = "additional data extended"; c.fault("additional data extended"); break; }
        case 8: if (!r.ct.empty()) { size_t n = 1 + X % r.ct.size(); r.aad.insert(r.aad.end(), r.ct.begin(), r.ct.begin() + n); r.ct.erase(r.ct.begin(), r.ct.begin() + n); what = "bytes moved from ciphertext to additional data"; c.fault("split point moved"); } break;
        case 9: { auto& o = f->second.recs[Y % f->second.recs.size()]; if (o.tag != r.tag) { r.tag = o.tag; what = "tag of another record"; c.fault("tag of another record"); } break; }
        case 10: { auto& o = f->second.recs[Y % f->second.recs.size()]; if (o.aad != r.aad) { r.aad = o.aad; what = "additional data of another record"; c.fault("additional data of another record"); } break; }
        case 11: if (r.ct.size() >= 32) { std::swap_ranges(r.ct.begin(), r.ct.begin() + 16, r.ct.begin() + 16); what = "ciphertext blocks swapped"; c.fault("blocks swapped"); } break;
        case 12: r.tag = {}; what = "tag zeroed"; c.fault("tag zeroed"); break;
        default: break;
      }
      present(x, r.ct, r.aad, r.tag, what);
    } else if (op.k == "flips") { // every single-bit corruption of the record expected next, each against its own copy of the receiver
      Rec* g = nullptr; for (auto& r : x.recs) if (r.n == x.rxn) g = &r; if (!g || g->ct.size() > 300000 || g->aad.size() > 300000) continue;
      size_t C = g->ct.size() * 8, A = g->aad.size() * 8; std::vector<size_t> bits; if (C + A <= 1024) for (size_t i = 0; i < 128 + C + A; i++) bits.push_back(i); else { // too many: those at the ends and some of the rest
        Rng z(op("x")); for (int i = 0; i < 8; i++) bits.push_back(z.below(128)); auto some = [&](size_t from, size_t n) { if (!n) return; for (int i = 0; i < 6; i++) { bits.push_back(from + z.below(n)); bits.push_back(from + z.below(std::min<size_t>(n, 136))); bits.push_back(from + n - 1 - z.below(std::min<size_t>(n, 136))); } }; some(128, C); some(128 + C, A); }
      for (size_t i : bits) { Bytes ct = g->ct, aad = g->aad; auto tag = g->tag; size_t q = i;
        if (q < 128) tag[q / 8] ^= 1 << (q % 8); else if ((q -= 128) < C) ct[q / 8] ^= 1 << (q % 8); else { q -= C; aad[q / 8] ^= 1 << (q % 8); }
        Gcm r2 = x.rx.copy(); auto [pt, ok] = r2.dec(ct, aad, tag); c.check(!ok, "forgery-accepted", "single bit " + std::to_string(i) + " flipped (tag, ciphertext, additional data)"); }
      for (size_t d : {1, 2, 5, 16, 17}) { Gcm r2 = x.rx.copy(), r3 = x.rx.copy(), r4 = x.rx.copy(), r5 = x.rx.copy(); Bytes ct = g->ct, aad = g->aad; if (ct.size() >= d) { ct.resize(ct.size() - d); c.check(!r2.dec(ct, g->aad, g->tag).second, "forgery-accepted", std::to_string(d) + " bytes cut off"); } if (aad.size() >= d) { aad.resize(aad.size() - d); c.check(!r3.dec(g->ct, aad, g->tag).second, "forgery-accepted", std::to_string(d) + " bytes of additional data cut off"); }
        ct = g->ct; aad = g->aad; ct.resize(ct.size() + d); aad.resize(aad.size() + d); c.check(!r4.dec(ct, g->aad, g->tag).second, "forgery-accepted", std::to_string(d) + " bytes appended"); c.check(!r5.dec(g->ct, aad, g->tag).second, "forgery-accepted", std::to_string(d) + " bytes of additional data appended"); }
      c.fault("single-bit corruption of the next record", bits.size());
      { // corruptions that cancel out: the same bits flipped in two places, parts exchanged or rotated
        Rng z(mix(op("x"), 77)); u64 cancels = 0;
        auto never = [&](const Bytes& ct, const Bytes& aad, const std::array<u8, 16>& tag, const char* what) { if (ct == g->ct && aad == g->aad && tag == g->tag) return; cancels++; Gcm r2 = x.rx.copy(); auto [pt, ok] = r2.dec(ct, aad, tag); c.check(!ok, "forgery-accepted", what); };
        bool big = C + A > 20000 * 8; size_t step = big ? 7 : 1;
        for (size_t i = 0, q = 0; i < 16; i++) for (size_t j = i + 1; j < 16; j++, q++) { if (q % step && j - i != 8) continue; u8 m = 1 + z.below(255); auto t = g->tag; t[i] ^= m; t[j] ^= m; never(g->ct, g->aad, t, "the same bits flipped in two bytes of the tag"); t = g->tag; t[i] += m; t[j] -= m; never(g->ct, g->aad, t, "added to one byte of the tag what was taken from another"); if (!big) { t = g->tag; std::swap(t[i], t[j]); never(g->ct, g->aad, t, "two bytes of the tag exchanged"); } }
        for (size_t i = 1; i < 16; i += big ? 5 : 1) { auto t = g->tag; std::rotate(t.begin(), t.begin() + i, t.end()); never(g->ct, g->aad, t, "tag rotated"); }
        { auto t = g->tag; std::reverse(t.begin(), t.end()); never(g->ct, g->aad, t, "tag reversed"); for (size_t w : {2, 4, 8}) { t = g->tag; for (size_t i = 0; i < 16; i += w) std::reverse(t.begin() + i, t.begin() + i + w); never(g->ct, g->aad, t, "tag reversed in words"); } t = g->tag; for (auto& b : t) b ^= 0xFF; never(g->ct, g->aad, t, "tag complemented"); for (size_t keep : {4, 8, 12, 15}) for (int tail = 0; tail < 2; tail++) { t = g->tag; for (size_t i = 0; i < 16; i++) if (tail ? i < 16 - keep : i >= keep) t[i] = 0; never(g->ct, g->aad, t, "part of the tag zeroed"); } }
        for (int side = 0; side < 2; side++) { const Bytes& from = side ? g->aad : g->ct; size_t n = from.size(); auto with = [&](const Bytes& b, const char* what) { if (side) never(g->ct, b, g->tag, what); else never(b, g->aad, g->tag, what); };
          for (size_t d : {1, 2, 4, 8, 16, 32, 64, 128, 256, 4096}) { if (n <= d) break; if (big && d != 16 && d != 128) continue; Bytes b = from; size_t i = z.below(n - d); u8 m = 1 + z.below(255); b[i] ^= m; b[i + d] ^= m; with(b, "the same bits flipped in two places"); b = from; std::swap(b[i], b[i + d]); with(b, "two bytes exchanged");
            if (d >= 16 && n >= 2 * d) { b = from; size_t k = z.below(n / d - 1) * d; std::swap_ranges(b.begin() + k, b.begin() + k + d, b.begin() + k + d); with(b, "two blocks exchanged"); b = from; for (size_t q = 0; q < d; q++) b[k + q] ^= m, b[k + d + q] ^= m; with(b, "the same bits flipped in all of two blocks"); } } }
        c.fault("corruption of the next record that cancels out under a checksum", cancels); }
    } else if (op.k == "many") {
      for (u64 i = 0; i < op("n"); i++) { u8 m[24]; memcpy(m, &i, 8); memset(m + 8, 0xAB, 16); size_t l = 8 + i % 17, al = i % 5; u64 n = x.txn++; auto [ct, tag] = x.tx.enc({m, l}, {m, al});
        if (i % 64 == 0 && x.iv.size() == 12) { Bytes rc, rt; oracle::gcm(x.key, nonceFor(x.iv, n), {m, l}, {m, al}, rc, rt); c.check(ct == rc && !memcmp(rt.data(), tag.data(), 16), "not-aes-gcm", "record " + std::to_string(n)); }
        auto [pt, ok] = x.rx.dec(ct, {m, al}, tag); x.rxn++; c.check(ok && pt.size() == l && !memcmp(pt.data(), m, l), "genuine-rejected", "record " + std::to_string(n)); }
      c.probe("more than 65536 records"); c.fault("long session"); }
  }
}
sim::Scenario sim::scenario{"C06", gen, run, fixed};
