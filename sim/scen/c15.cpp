// C15: client and server endpoints made of the library's parts (or, on one side, of the reference implementation) exchange data in
// authenticated sessions over a simulated network: discrete-event time, loss, duplication, reordering, delay, corruption, partitions,
// forged packets, impostors, crash and restart, clock jumps, entropy and memory failures. Faults are explicit plan lines.
#include "ops.h"
#include <queue>
#include <cerrno>
using namespace sim; using namespace pki;
namespace {
constexpr u64 SEC = 1000; constexpr int64_t T0 = 1600000000;
enum Mode { BOTH_LIB, REF_SERVER, REF_CLIENT };
// ---- cryptography as an endpoint uses it ---------------------------------------------------------------------------
struct Chan { virtual ~Chan() {} virtual Bytes seal(const Bytes& pt, const Bytes& aad) = 0; virtual bool open(const Bytes& rec, const Bytes& aad, Bytes& pt) = 0; };
struct Crypto { virtual ~Crypto() {}
  virtual Bytes random(size_t n) = 0; virtual Bytes priv() = 0; virtual Bytes dh(const Bytes& k, const Bytes& u) = 0; virtual void transcript(const Bytes& m) = 0; virtual Bytes th() = 0;
  virtual void handshake(const Bytes& shared) = 0; virtual void application() = 0; virtual std::unique_ptr<Chan> chan(bool client, bool hs) = 0; virtual std::unique_ptr<Chan> update(bool client) = 0; virtual Bytes finished(bool client) = 0; };
struct LibChan : Chan { rec::Gcm g; LibChan(const Bytes& k, const Bytes& iv) : g(k, iv) {}
  Bytes seal(const Bytes& pt, const Bytes& aad) override { auto [ct, tag] = g.enc(pt, aad); ct.insert(ct.end(), tag.begin(), tag.end()); return ct; }
  bool open(const Bytes& r, const Bytes& aad, Bytes& pt) override { if (r.size() < 16) return false; std::array<u8, 16> tag; memcpy(tag.data(), r.data() + r.size() - 16, 16); auto [p, ok] = g.dec({r.data(), r.size() - 16}, aad, tag); pt = p; return ok; } };
struct RefChan : Chan { Bytes k, iv; u64 n = 0; RefChan(Bytes k, Bytes iv) : k(std::move(k)), iv(std::move(iv)) {}
  Bytes seal(const Bytes& pt, const Bytes& aad) override { Bytes ct, tag; oracle::gcm(k, rec::nonceFor(iv, n++), pt, aad, ct, tag); ct.insert(ct.end(), tag.begin(), tag.end()); return ct; }
  bool open(const Bytes& r, const Bytes& aad, Bytes& pt) override { if (r.size() < 16) return false; Bytes body(r.begin(), r.end() - 16), ct, tag, x; Bytes nn = rec::nonceFor(iv, n++); oracle::gcm(k, nn, body, aad, pt, x); oracle::gcm(k, nn, pt, aad, ct, tag); return !memcmp(tag.data(), r.data() + r.size() - 16, 16); } };
template <class H> struct LibCrypto : Crypto { bool big; H tr; Caligo::secret<H> hs, ms, cs, ss; LibCrypto(bool b) : big(b) {} Bytes thHs, thAp;
  Bytes random(size_t n) override { Bytes b(n); Caligo::generate_random(std::span<u8>(b)); return b; }
  Bytes priv() override { return Caligo::ec_value::random_private_key().as_bytes(); }
  Bytes dh(const Bytes& k, const Bytes& u) override { return Caligo::X25519(Caligo::ec_value(Caligo::bignum<256>(std::span<const u8>(k))), Caligo::ec_value(Caligo::bignum<256>(std::span<const u8>(u)))).as_bytes(); }
  void transcript(const Bytes& m) override { tr.add(m); }
  Bytes th() override { auto a = tr.data(); return Bytes(a.begin(), a.end()); }
  void handshake(const Bytes& s) override { hs = Caligo::HKDF_HandshakeSecret<H>(s); thHs = th(); }
  void application() override { ms = Caligo::HKDF_MasterSecret<H>(hs); thAp = th(); Bytes a = ms.get_traffic_secret(thAp, true, false), b = ms.get_traffic_secret(thAp, false, false); std::copy(a.begin(), a.end(), cs.data.begin()); std::copy(b.begin(), b.end(), ss.data.begin()); }
  template <class C> std::unique_ptr<Chan> mk(bool client, bool h) { auto p = h ? hs.template get_key_iv<C>(thHs, client, true) : ms.template get_key_iv<C>(thAp, client); return std::make_unique<LibChan>(p.key, p.iv); }
  std::unique_ptr<Chan> chan(bool client, bool h) override { return big ? mk<Caligo::AES<256>>(client, h) : mk<Caligo::AES<128>>(client, h); }
  std::unique_ptr<Chan> update(bool client) override { auto& s = client ? cs : ss; s = Caligo::HKDF_UpdateSecret<H>(s); return std::make_unique<LibChan>(Caligo::HKDF_Expand_Label<H>(s.data, "key", {}, big ? 32 : 16), Caligo::HKDF_Expand_Label<H>(s.data, "iv", {}, 12)); }
  Bytes finished(bool client) override { auto a = Caligo::HMAC<H>(th(), hs.get_finished_key(thHs, client)); return Bytes(a.begin(), a.end()); } };
struct RefCrypto : Crypto { const char* n; bool big; oracle::Digest tr; Bytes hs, ms, cs, ss, thHs, thAp; std::function<Bytes(size_t)> rnd; RefCrypto(const char* n, bool b, std::function<Bytes(size_t)> r) : n(n), big(b), tr(n), rnd(std::move(r)) {}
  Bytes X(const Bytes& s, const char* l, const Bytes& c, size_t len) { return oracle::expandLabel(n, s, l, c, len); } size_t L() { return oracle::digest(n, {}).size(); }
  Bytes random(size_t k) override { return rnd(k); } Bytes priv() override { return rnd(32); } Bytes dh(const Bytes& k, const Bytes& u) override { return oracle::x25519(k, u); }
  void transcript(const Bytes& m) override { tr.add(m); } Bytes th() override { return tr.get(); }
  void handshake(const Bytes& s) override { Bytes z(L()), e = oracle::digest(n, {}); hs = oracle::hkdfExtract(n, X(oracle::hkdfExtract(n, z, z), "derived", e, L()), s); thHs = th(); }
  void application() override { Bytes z(L()), e = oracle::digest(n, {}); ms = oracle::hkdfExtract(n, X(hs, "derived", e, L()), z); thAp = th(); cs = X(ms, "c ap traffic", thAp, L()); ss = X(ms, "s ap traffic", thAp, L()); }
  std::unique_ptr<Chan> from(const Bytes& t) { return std::make_unique<RefChan>(X(t, "key", {}, big ? 32 : 16), X(t, "iv", {}, 12)); }
  std::unique_ptr<Chan> chan(bool c, bool h) override { return from(h ? X(hs, c ? "c hs traffic" : "s hs traffic", thHs, L()) : c ? cs : ss); }
  std::unique_ptr<Chan> update(bool c) override { auto& s = c ? cs : ss; s = X(s, "traffic upd", {}, L()); return from(s); }
  Bytes finished(bool c) override { return oracle::hmac(n, X(X(hs, c ? "c hs traffic" : "s hs traffic", thHs, L()), "finished", {}, L()), th()); } };
std::unique_ptr<Crypto> libCrypto(u64 h, bool big) { if (h == 0) return std::make_unique<LibCrypto<Caligo::SHA2<256>>>(big); if (h == 1) return std::make_unique<LibCrypto<Caligo::SHA2<384>>>(big); return std::make_unique<LibCrypto<Caligo::SHA2<512>>>(big); }
// ---- wire ----------------------------------------------------------------------------------------------------------
struct Packet { u64 sid; bool toServer; u64 seq; u8 type; Bytes body; u64 ack; }; // type 0 handshake clear, 1 record, 2 ack only, 3 reset
Bytes lenPrefixed(const std::vector<Bytes>& v) { Bytes o; for (auto& x : v) { u32 n = x.size(); o.insert(o.end(), (u8*)&n, (u8*)&n + 4); o.insert(o.end(), x.begin(), x.end()); } return o; }
bool splitPrefixed(const Bytes& b, std::vector<Bytes>& v) { size_t p = 0; while (p < b.size()) { if (b.size() - p < 4) return false; u32 n; memcpy(&n, &b[p], 4); p += 4; if (b.size() - p < n || v.size() > 20) return false; v.push_back(Bytes(b.begin() + p, b.begin() + p + n)); p += n; } return true; }
Bytes proofText(const Bytes& th) { Bytes o(64, 0x20); std::string s = "TLS 1.3, server CertificateVerify"; o.insert(o.end(), s.begin(), s.end()); o.push_back(0); o.insert(o.end(), th.begin(), th.end()); return o; }
// reliable in-order delivery of a session's messages over the packet network; carries no integrity of its own
struct Link { std::map<u64, std::pair<u8, Bytes>> unacked, early; u64 nextOut = 0, nextIn = 0; };
// ---- history kept by the oracle ------------------------------------------------------------------------------------
struct Track { Bytes ch, sh, th; std::vector<Bytes> sent, got; bool done = false, proved = false; u64 id = 0; };
}
static void gen(Rng& r, Plan& p, const Tier& t) {
  u64 n = r.range(1, 6); p.push_back(Op("cfg", {{"seed", r.next() >> 16}, {"mode", r.below(3)}, {"h", r.below(3)}, {"big", r.below(2)}, {"n", n}, {"len", r.chance(1, 4) ? r.below(3000) : r.below(200)}, {"depth", r.chance(1, 3) ? 1 : 0}, {"ph", r.below(3)}, {"rootkey", r.below(3)}, {"upd", r.chance(1, 2) ? 0 : r.range(1, 3)}, {"jit", r.below(200)}, {"pin", r.chance(1, 5)}}));
  bool calm = r.chance(1, 8); if (calm) return; u64 span = r.range(1, 12) * SEC; std::vector<u64> kinds; for (u64 k = 0; k < 10; k++) if (r.chance(1, 2)) kinds.push_back(k); if (kinds.empty()) kinds.push_back(r.below(10)); u64 f = r.range(1, 14);
  for (u64 i = 0; i < f; i++) switch (r.pick(kinds)) {
    case 0: p.push_back(Op("net", {{"i", r.below(60)}, {"k", 1}})); break;                                                     // lost
    case 1: p.push_back(Op("net", {{"i", r.below(60)}, {"k", 2}, {"x", r.below(2000)}})); break;                                // duplicated
    case 2: p.push_back(Op("net", {{"i", r.below(60)}, {"k", 3}, {"x", r.range(100, 4000)}})); break;                           // delayed
    case 3: p.push_back(Op("net", {{"i", r.below(60)}, {"k", r.range(4, 10)}, {"x", r.next() >> 20}, {"y", r.next() >> 20}})); break; // altered
    case 4: p.push_back(Op("part", {{"at", r.below(r.chance(2, 3) ? 400 : span)}, {"for", r.range(100, 6000)}})); break;
    case 5: p.push_back(Op("crash", {{"at", r.below(r.chance(2, 3) ? 400 : span)}, {"node", r.below(2)}, {"for", r.range(1, 3000)}})); break;
    case 6: p.push_back(Op("clock", {{"at", r.below(r.chance(2, 3) ? 400 : span)}, {"to", r.below(6)}, {"for", r.range(500, 8000)}})); break;
    case 7: p.push_back(Op("entropy", {{"i", r.below(40)}, {"k", r.range(1, 3)}, {"arg", r.range(1, 7)}})); break;
    case 8: p.push_back(Op("oom", {{"i", r.below(40)}, {"at", r.chance(1, 2) ? r.below(10) : r.below(300)}, {"n", r.range(1, 3)}})); break;
    default: p.push_back(Op("impostor", {{"at", r.below(r.chance(2, 3) ? 400 : span)}, {"for", r.range(500, 8000)}, {"k", r.below(15)}}));
  }
  (void)t;
}
static std::vector<Plan> fixed(const Tier&) { std::vector<Plan> v; for (u64 pin : {0, 1}) for (u64 mode : {0, 1, 2}) for (u64 k = 0; k < 15; k++) v.push_back({Op("cfg", {{"pin", pin}, {"seed", 5 + k + mode * 16}, {"mode", mode}, {"h", k % 3}, {"big", k & 1}, {"n", 3}, {"len", 60}, {"depth", k & 1}, {"rootkey", k % 3}, {"upd", k % 3}, {"jit", 10}}), Op("impostor", {{"at", 900}, {"for", 2500}, {"k", k}}), Op("crash", {{"at", 800}, {"node", 0}, {"for", 50}})}); return v; }
namespace {
struct World {
  Ctx& c; Op cfg; u64 now = 0, evn = 0; Rng rng{1};
  struct Ev { u64 t, n; std::function<void()> f; bool operator<(const Ev& o) const { return std::tie(t, n) > std::tie(o.t, o.n); } }; std::priority_queue<Ev> q;
  std::map<u64, Op> net, ent, oom; std::vector<Op> parts, clocks, impostors, crashes; u64 pkt = 0, ecalls = 0, lcalls = 0, horizon = 0; u64 mode, h, ph; bool big; size_t serverKey = 13;
  std::vector<Packet> recorded; std::vector<std::pair<Bytes, Bytes>> oldProofs; // (certificate message, proof) of earlier genuine flights
  std::vector<Bytes> chainDer; Bytes serverPem, otherCert, expiredCert, futureCert, selfCert, fakeCaCert, strangerCert, fakeRootCert, fakeMidCert, midIssued; std::string serverName; std::vector<Cert> certs; size_t impKey = 17;
  std::set<Bytes> used; std::vector<Bytes> wantC, wantS;
  World(Ctx& c, const Op& o) : c(c), cfg(o), rng(o("seed")) { mode = o("mode") % 3; h = o("h") % 3; big = o("big") & 1; }
  void after(u64 d, std::function<void()> f) { q.push({now + d, evn++, std::move(f)}); }
  int64_t clientClock() { int64_t t = T0 + (int64_t)(now / SEC); for (auto& o : clocks) if (now >= o("at") && now < o("at") + o("for")) { switch (o("to") % 6) { case 0: return 0; case 1: return 1499999999; case 2: return 1700000001; case 3: return 4000000000LL; case 4: return t - 3600 * 24 * 30; default: return t + 3600 * 24 * 30; } } return t; }
  bool partitioned() { for (auto& o : parts) if (now >= o("at") && now < o("at") + o("for")) return true; return false; }
  const Op* impostor() { for (auto& o : impostors) if (now >= o("at") && now < o("at") + o("for")) return &o; return nullptr; }
  // every library call of an endpoint goes through here: memory may run out in it
  template <class F> auto lib(F f) { u64 i = lcalls++; auto it = oom.find(i); struct Off { bool on; Ctx& c; ~Off() { if (on) { u64 n = alloc::disarm(); c.fault("allocation failure", n); } } } off{it != oom.end(), c}; if (it != oom.end()) alloc::arm(it->second("at"), it->second("n")); alloc::Region R; return f(); }
  Bytes refRandom(size_t n) { Bytes b(n); for (auto& x : b) x = (u8)rng.next(); return b; }
  struct Client; struct Server; std::unique_ptr<Client> cl; std::unique_ptr<Server> sv; u64 nextSid = 1; std::map<u64, Track> ctrack; std::map<std::pair<u64, u64>, Track> strack; u64 boots = 0, completed = 0; u64 answered = 0, servedTotal = 0;
  void setup();
  void send(const Packet& p); void deliver(Packet p); void transmit(bool fromClient, u64 sid, Link& l, u8 type, Bytes body); void resend(bool fromClient, u64 sid, Link& l); bool admit(Link& l, const Packet& p, std::vector<std::pair<u8, Bytes>>& out);
  void checkAll();
};
Bytes aadFor(u8 type, size_t n) { return Bytes{23, 3, 3, (u8)(n >> 8), (u8)n, type}; }
struct World::Client {
  World& w; struct Sess { u64 sid; Link l; std::unique_ptr<Crypto> x; Bytes priv; int st = 0; std::unique_ptr<Chan> in, out; u64 last, replies = 0, sent = 0, upIn = 0; std::vector<Caligo::x509certificate> chain; std::vector<Bytes> ders; bool refOk = false; }; std::unique_ptr<Sess> s; u64 boot; bool dead = false;
  Client(World& w) : w(w), boot(w.boots++) { start(); tick(); }
  void tick() { u64 b = boot; w.after(100, [this, b, &w = w] { if (!w.cl || w.cl->boot != b) return; if (w.answered >= w.wantC.size()) return; if (s) { if (w.now - s->last > 3 * SEC) { w.c.probe("session given up after silence"); abort(); } else w.resend(true, s->sid, s->l); } tick(); }); }
  void abort() { s.reset(); u64 b = boot; w.after(300, [this, b, &w = w] { if (w.cl && w.cl->boot == b && !s) start(); }); }
  void start() { if (w.answered >= w.wantC.size()) return; auto n = std::make_unique<Sess>(); n->sid = w.nextSid++; n->last = w.now; n->x = w.mode == REF_CLIENT ? std::unique_ptr<Crypto>(new RefCrypto(rsax::HN[w.h], w.big, [&w = w](size_t k) { return w.refRandom(k); })) : libCrypto(w.h, w.big);
    try { Bytes ch, rnd; auto f = [&] { n->priv = n->x->priv(); rnd = n->x->random(32); ch = rnd; Bytes base(32); base[0] = 9; Bytes pub = n->x->dh(n->priv, base); ch.insert(ch.end(), pub.begin(), pub.end()); n->x->transcript(ch); }; if (w.mode == REF_CLIENT) f(); else w.lib(f);
      w.c.check(w.used.insert(rnd).second && w.used.insert(n->priv).second && w.used.insert(Bytes(ch.begin() + 32, ch.end())).second, "randomness-repeated", "a client session reuses a random value or key of an earlier one"); auto& t = w.ctrack[n->sid]; t.ch = ch; t.id = n->sid; s = std::move(n); w.transmit(true, s->sid, s->l, 0, ch);
    } catch (const Violation&) { throw; } catch (const std::exception&) { w.c.probe("session could not start"); s.reset(); abort(); } }
  void got(const Packet& p) { if (!s || p.sid != s->sid) return; if (p.type == 3) { w.c.probe("session reset by peer"); abort(); return; } s->last = w.now; std::vector<std::pair<u8, Bytes>> v; w.admit(s->l, p, v); u64 sid = s->sid;
    for (auto& [ty, b] : v) { bool ok = false; try { ok = handle(ty, b); } catch (const Violation&) { throw; } catch (const std::exception& e) { w.c.probe("session aborted by an exception"); } if (!ok) { w.c.probe("client refused a message"); Packet r{sid, true, 0, 3, {}, 0}; w.send(r); abort(); return; } if (!s || s->sid != sid) return; }
    if (!v.empty()) w.send({sid, true, ~0ULL, 2, {}, s->l.nextIn}); }
  bool handle(u8 ty, const Bytes& b) { bool ref = w.mode == REF_CLIENT; auto L = [&](auto f) { if (ref) return f(); return w.lib(f); };
    if (s->st == 0) { if (ty != 0 || b.size() != 64) return false; w.ctrack[s->sid].sh = b; Bytes shared = L([&] { s->x->transcript(b); return s->x->dh(s->priv, Bytes(b.begin() + 32, b.end())); }); if (std::all_of(shared.begin(), shared.end(), [](u8 v) { return !v; })) return false; L([&] { s->x->handshake(shared); s->in = s->x->chan(false, true); s->out = s->x->chan(true, true); }); s->st = 1; return true; }
    if (ty != 1) return false; Bytes pt; Bytes ad = aadFor(ty, b.size()); if (!L([&] { return s->in->open(b, ad, pt); })) return false; if (pt.empty()) return false; u8 kind = pt[0]; Bytes body(pt.begin() + 1, pt.end());
    if (s->st == 1) { if (kind != 11) return false; s->ders.clear(); if (!splitPrefixed(body, s->ders) || s->ders.empty()) return false; L([&] { s->x->transcript(pt); }); if (ref) { s->refOk = s->ders == w.chainDer; if (!s->refOk) return false; int64_t t = w.clientClock(); if (t < 1500000100 || t > 1700000000) return false; } else { int64_t t = w.clientClock(); std::vector<Caligo::x509certificate> ch; w.lib([&] { for (auto& d : s->ders) ch.push_back(Caligo::parseCertificate(d)); }); bool ok = w.lib([&] { return Caligo::Truststore::Instance().trust(ch, (u64)t); }); if (!ok || !ch[0].appliesTo(w.serverName)) return false; bool valid = t >= 1500000100 && t <= 1700000000; w.c.check(valid, "trusted-outside-validity", "certificate trusted at " + std::to_string(t)); s->chain = std::move(ch); } s->st = 2; return true; }
    if (s->st == 2) { if (kind != 15) return false; Bytes th = L([&] { return s->x->th(); }); Bytes text = proofText(th); bool ok = ref ? oracle::rsaVerify(oracle::rsa(w.serverKey), rsax::HN[w.ph], true, text, body) : w.lib([&] { return s->chain[0].pubkey && s->chain[0].pubkey->validateSignature(rsax::scheme(true, w.ph), text, body); }); if (!ok) return false; L([&] { s->x->transcript(pt); }); s->st = 3; return true; }
    if (s->st == 3) { if (kind != 20) return false; Bytes want = L([&] { return s->x->finished(false); }); if (body != want) return false; L([&] { s->x->transcript(pt); }); auto& t = w.ctrack[s->sid]; Bytes fin; L([&] { s->x->application(); fin = s->x->finished(true); }); t.th = L([&] { return s->x->th(); }); t.done = true; w.completed++; w.c.probe("handshake completed"); w.checkAll();
      Bytes f{20}; f.insert(f.end(), fin.begin(), fin.end()); seal(f); L([&] { s->in = s->x->chan(false, false); s->out = s->x->chan(true, false); }); s->st = 4; s->sent = w.answered; for (u64 i = 0; i < 2 && s->sent < w.wantC.size(); i++) request(); return true; }
    if (kind == 24) { L([&] { s->in = s->x->update(false); }); w.c.probe("key update received"); return true; }
    if (kind != 23) return false; auto& t = w.ctrack[s->sid]; t.got.push_back(body); w.checkAll(); w.c.check(body == w.wantS[w.answered], "wrong-data", "the client was given a reply that is not the next one"); w.answered++; w.c.probe("reply delivered"); if (s->sent < w.wantC.size()) request(); return true; }
  void seal(const Bytes& pt) { Bytes ad = aadFor(1, pt.size() + 16); Bytes r = w.mode == REF_CLIENT ? s->out->seal(pt, ad) : w.lib([&] { return s->out->seal(pt, ad); }); w.transmit(true, s->sid, s->l, 1, r); }
  void request() { u64 u = w.cfg("upd"); if (u && s->sent && s->sent % u == 0 && s->sent != w.answered) { Bytes k{24}; seal(k); if (w.mode == REF_CLIENT) s->out = s->x->update(true); else w.lib([&] { s->out = s->x->update(true); }); } Bytes m{23}; u64 i = s->sent++; m.insert(m.end(), (u8*)&i, (u8*)&i + 8); m.insert(m.end(), w.wantC[i].begin(), w.wantC[i].end()); w.ctrack[s->sid].sent.push_back(Bytes(m.begin() + 1, m.end())); seal(m); }
};
struct World::Server {
  World& w; u64 boot; struct Sess { Link l; std::unique_ptr<Crypto> x; int st = 0; std::unique_ptr<Chan> in, out, apIn, apOut; u64 served = 0; Track* t; }; std::map<u64, Sess> ss; std::unique_ptr<Caligo::PrivateKey> key; std::set<u64> gone;
  Server(World& w) : w(w), boot(w.boots++) { if (w.mode != REF_SERVER) load(); tick(); }
  void load() { try { key = w.lib([&] { return Caligo::parsePrivateKey(w.serverPem, Caligo::DataFormat::Pem); }); } catch (const std::bad_alloc&) { w.c.probe("key not loaded for lack of memory"); } }
  void tick() { u64 b = boot; w.after(130, [this, b, &w = w] { if (!w.sv || w.sv->boot != b) return; if (w.answered >= w.wantC.size()) return; for (auto& [sid, s] : ss) w.resend(false, sid, s.l); tick(); }); }
  void got(const Packet& p) { if (p.type == 3) { ss.erase(p.sid); gone.insert(p.sid); return; } auto it = ss.find(p.sid);
    if (it == ss.end()) { if (p.type != 0 || p.seq != 0 || gone.count(p.sid)) { if (p.type != 2) w.send({p.sid, false, 0, 3, {}, 0}); return; } it = ss.emplace(p.sid, Sess()).first; auto& s = it->second; s.x = w.mode == REF_SERVER ? std::unique_ptr<Crypto>(new RefCrypto(rsax::HN[w.h], w.big, [&w = w](size_t k) { return w.refRandom(k); })) : libCrypto(w.h, w.big); s.t = &w.strack[{boot, p.sid}]; s.t->id = p.sid; if (ss.size() > 20) ss.erase(ss.begin()); }
    auto& s = it->second; std::vector<std::pair<u8, Bytes>> v; w.admit(s.l, p, v); for (auto& [ty, b] : v) { bool ok = false; try { ok = handle(p.sid, s, ty, b); } catch (const Violation&) { throw; } catch (const std::exception&) { w.c.probe("session aborted by an exception"); } if (!ok) { w.c.probe("server refused a message"); ss.erase(p.sid); gone.insert(p.sid); w.send({p.sid, false, 0, 3, {}, 0}); return; } }
    if (!v.empty()) w.send({p.sid, false, ~0ULL, 2, {}, s.l.nextIn}); }
  void seal(u64 sid, Sess& s, const Bytes& pt) { Bytes ad = aadFor(1, pt.size() + 16); Bytes r = w.mode == REF_SERVER ? s.out->seal(pt, ad) : w.lib([&] { return s.out->seal(pt, ad); }); w.transmit(false, sid, s.l, 1, r); }
  bool handle(u64 sid, Sess& s, u8 ty, const Bytes& b) { bool ref = w.mode == REF_SERVER; auto L = [&](auto f) { if (ref) return f(); return w.lib(f); };
    if (s.st == 0) { if (ty != 0 || b.size() != 64) return false; if (!ref && !key) { load(); if (!key) return false; } s.t->ch = b; Bytes priv, rnd, pub, shared; L([&] { priv = s.x->priv(); rnd = s.x->random(32); Bytes base(32); base[0] = 9; pub = s.x->dh(priv, base); shared = s.x->dh(priv, Bytes(b.begin() + 32, b.end())); }); w.c.check(w.used.insert(rnd).second && w.used.insert(priv).second && w.used.insert(pub).second, "randomness-repeated", "a server session reuses a random value or key of an earlier one");
      Bytes sh = rnd; sh.insert(sh.end(), pub.begin(), pub.end()); s.t->sh = sh; if (std::all_of(shared.begin(), shared.end(), [](u8 v) { return !v; })) return false; L([&] { s.x->transcript(b); s.x->transcript(sh); s.x->handshake(shared); s.out = s.x->chan(false, true); s.in = s.x->chan(true, true); }); w.transmit(false, sid, s.l, 0, sh);
      Bytes cm{11}, lp = lenPrefixed(w.chainDer); cm.insert(cm.end(), lp.begin(), lp.end()); L([&] { s.x->transcript(cm); }); seal(sid, s, cm); Bytes th = L([&] { return s.x->th(); }), text = proofText(th); Bytes sig; if (ref) { oracle::seedReference(w.rng.next()); sig = oracle::rsaSign(oracle::rsa(w.serverKey), rsax::HN[w.ph], true, text); } else sig = w.lib([&] { return key->sign(rsax::scheme(true, w.ph), text); }); Bytes cv{15}; cv.insert(cv.end(), sig.begin(), sig.end()); w.oldProofs.push_back({cm, cv}); s.t->proved = true; L([&] { s.x->transcript(cv); }); seal(sid, s, cv);
      Bytes fin{20}, f = L([&] { return s.x->finished(false); }); fin.insert(fin.end(), f.begin(), f.end()); seal(sid, s, fin); L([&] { s.x->transcript(fin); s.x->application(); s.apIn = s.x->chan(true, false); s.apOut = s.x->chan(false, false); }); s.t->th = L([&] { return s.x->th(); }); s.st = 1; return true; }
    if (ty != 1) return false; Bytes pt, ad = aadFor(ty, b.size()); if (!L([&] { return s.in->open(b, ad, pt); })) return false; if (pt.empty()) return false; Bytes body(pt.begin() + 1, pt.end());
    if (s.st == 1) { if (pt[0] != 20) return false; Bytes want = L([&] { return s.x->finished(true); }); if (body != want) return false; s.in = std::move(s.apIn); s.out = std::move(s.apOut); s.st = 2; s.t->done = true; return true; }
    if (pt[0] == 24) { L([&] { s.in = s.x->update(true); }); w.c.probe("key update received"); return true; }
    if (pt[0] != 23 || body.size() < 8) return false; s.t->got.push_back(body); w.checkAll(); u64 i; memcpy(&i, body.data(), 8); if (i >= w.wantS.size()) return false; s.served++; u64 u = w.cfg("upd"); if (u && s.served % (u + 1) == 0) { seal(sid, s, Bytes{24}); L([&] { s.out = s.x->update(false); }); } Bytes m{23}; m.insert(m.end(), w.wantS[i].begin(), w.wantS[i].end()); s.t->sent.push_back(w.wantS[i]); seal(sid, s, m); w.servedTotal++; return true; }
};
void World::transmit(bool fromClient, u64 sid, Link& l, u8 type, Bytes body) { u64 n = l.nextOut++; l.unacked[n] = {type, body}; send({sid, fromClient, n, type, std::move(body), l.nextIn}); }
void World::resend(bool fromClient, u64 sid, Link& l) { size_t k = 0; for (auto& [n, m] : l.unacked) { if (++k > 6) break; send({sid, fromClient, n, m.first, m.second, l.nextIn}); } if (l.unacked.empty() && fromClient) send({sid, true, ~0ULL, 2, {}, l.nextIn}); }
bool World::admit(Link& l, const Packet& p, std::vector<std::pair<u8, Bytes>>& out) { while (!l.unacked.empty() && l.unacked.begin()->first < p.ack) l.unacked.erase(l.unacked.begin()); if (p.type == 2) return true; if (p.seq < l.nextIn || p.seq > l.nextIn + 50) { if (p.seq < l.nextIn) send({p.sid, !p.toServer, ~0ULL, 2, {}, l.nextIn}); return true; } l.early[p.seq] = {p.type, p.body}; while (!l.early.empty() && l.early.begin()->first == l.nextIn) { out.push_back(l.early.begin()->second); l.early.erase(l.early.begin()); l.nextIn++; } return true; }
void World::send(const Packet& p) {
  u64 i = pkt++; u64 d = 5 + rng.below(1 + cfg("jit") % 400); Packet m = p; auto it = net.find(i); if (p.type < 2 && recorded.size() < 400) recorded.push_back(p); if (it != net.end()) { auto& o = it->second; horizon = std::max(horizon, now + 4000); u64 x = o("x"), y = o("y");
    switch (o("k")) { case 1: c.fault("message lost"); return; case 2: c.fault("message duplicated"); after(d + x, [this, m] { deliver(m); }); break; case 3: c.fault("message delayed"); d += x; break;
      case 4: if (!m.body.empty()) { m.body[x % m.body.size()] ^= 1 << (y % 8); c.fault("message corrupted"); } break; case 5: if (!m.body.empty()) { m.body.resize(x % m.body.size()); c.fault("message truncated"); } break; case 6: m.body.insert(m.body.end(), 1 + x % 20, (u8)y); c.fault("message extended"); break;
      case 7: if (m.type < 2 && !recorded.empty()) { auto& r = recorded[x % recorded.size()]; if (r.body != m.body) { m.body = r.body; c.fault("recorded message substituted"); } } break;
      case 8: if (m.type < 2) { Packet e = m; e.seq++; after(d, [this, e] { deliver(e); }); c.fault("message repeated under the next sequence number"); } break;
      case 9: { for (size_t k = recorded.size(); k-- > 0;) if (recorded[k].sid == m.sid && recorded[k].toServer != m.toServer && m.type < 2) { m.body = recorded[k].body; m.type = recorded[k].type; c.fault("message reflected"); break; } break; }
      default: if (m.type < 2 && m.body.size() == 64 && m.type == 0) { Bytes z(32); if (x & 1) z[0] = 1; std::copy(z.begin(), z.end(), m.body.begin() + 32); c.fault("low-order public value"); } else if (m.type == 1) { std::fill(m.body.begin(), m.body.end(), (u8)x); c.fault("message overwritten"); } break; } }
  if (partitioned()) { c.fault("message lost in a partition"); return; }
  after(d, [this, m] { if (partitioned()) { c.fault("message lost in a partition"); return; } deliver(m); }); }
void World::deliver(Packet p) { c.step(); if (p.toServer) {
    if (const Op* im = impostor(); im && p.type == 0 && p.seq == 0 && p.body.size() == 64) { // somebody else answers
      c.fault("impostor answers"); u64 k = (*im)("k") % 15; RefCrypto x(rsax::HN[h], big, [this](size_t n) { return refRandom(n); }); Bytes priv = x.priv(), rnd = x.random(32), base(32); base[0] = 9; Bytes pub = x.dh(priv, base), shared = x.dh(priv, Bytes(p.body.begin() + 32, p.body.end())); Bytes sh = rnd; sh.insert(sh.end(), pub.begin(), pub.end()); x.transcript(p.body); x.transcript(sh); x.handshake(shared); auto out = x.chan(false, true); u64 seq = 0; auto put = [&](u8 ty, const Bytes& b) { send({p.sid, false, seq++, ty, b, 1}); }; auto sealed = [&](const Bytes& pt) { put(1, out->seal(pt, aadFor(1, pt.size() + 16))); x.transcript(pt); }; put(0, sh);
      std::vector<Bytes> chain = chainDer; size_t sk = impKey; switch (k) { case 1: chain = {selfCert}; break; case 2: chain = {fakeCaCert}; break; case 3: chain = {expiredCert}; break; case 4: chain = {futureCert}; break; case 5: chain = {otherCert}; break; case 6: chain = {strangerCert}; if (chainDer.size() > 1) chain.push_back(chainDer[1]); break;
        case 9: chain = {fakeCaCert, fakeRootCert}; break; case 10: chain = {midIssued, fakeMidCert}; break; case 11: chain = {midIssued, fakeMidCert, fakeRootCert}; break; case 12: chain.insert(chain.begin(), strangerCert); break; case 13: chain = {fakeCaCert, chainDer[0]}; break; case 14: chain = {selfCert, selfCert}; break; default: break; }
      Bytes cm{11}, lp = lenPrefixed(chain); cm.insert(cm.end(), lp.begin(), lp.end()); Bytes cv{15}; if ((k == 7 || k == 8) && !oldProofs.empty()) { auto& op = oldProofs[k == 7 ? oldProofs.size() - 1 : 0]; cm = op.first; cv = op.second; sealed(cm); } else { sealed(cm); oracle::seedReference(rng.next()); Bytes sg = oracle::rsaSign(oracle::rsa(sk), rsax::HN[ph], k != 8, proofText(x.th())); cv.insert(cv.end(), sg.begin(), sg.end()); } sealed(cv); Bytes fin{20}, f = x.finished(false); fin.insert(fin.end(), f.begin(), f.end()); sealed(fin); return; }
    if (sv) sv->got(p); else c.fault("message to a crashed node"); } else { if (cl) cl->got(p); else c.fault("message to a crashed node"); } }
void World::checkAll() {
  for (auto& [sid, t] : ctrack) { const Track* peer = nullptr; for (auto& [k, s] : strack) if (s.ch == t.ch && s.sh == t.sh && s.proved) peer = &s;
    if (t.done) { c.check(peer != nullptr, "impostor-accepted", "the client completed a handshake no genuine server took part in"); c.check(peer->th.empty() || peer->th == t.th, "transcripts-differ", "client and server completed with different transcripts"); }
    if (!t.got.empty()) { c.check(peer && t.got.size() <= peer->sent.size() && std::equal(t.got.begin(), t.got.end(), peer->sent.begin()), "wrong-data", "what the client received is not what the server sent, in order"); } }
  for (auto& [k, s] : strack) if (!s.got.empty()) { const Track* peer = nullptr; for (auto& [sid, t] : ctrack) if (t.ch == s.ch && t.sh == s.sh && t.done) peer = &t; c.check(peer && s.got.size() <= peer->sent.size() && std::equal(s.got.begin(), s.got.end(), peer->sent.begin()), "wrong-data", "what the server received is not what the client sent, in order"); } }
void World::setup() {
  static const size_t SK[] = {13, 16, 17}; ph = cfg("ph") % 3; static const size_t RK[] = {1, 0, 14}; size_t rk = RK[cfg("rootkey") % 3]; serverKey = SK[cfg("seed") % 3]; if (ph == 1) serverKey = 14; if (ph == 2) serverKey = 0; if (!rsax::fits(oracle::rsa(serverKey).n.size(), true, ph)) ph = 0; impKey = 15;
  bool pin = cfg("pin"); u64 nm = pin ? 1 : 10;   // pin: the server's certificate has the common name of the root, so an impostor may take the root's name
  auto mk = [&](u64 name, u64 issuer, size_t key, size_t sign, int64_t nb, int64_t na, int ca) { Op o("cert", {{"name", name}, {"issuer", issuer}, {"key", key}, {"sign", sign}, {"nb", off(nb)}, {"na", off(na)}, {"hash", cfg("seed") / 7 % 3}, {"ver", 3}, {"ca", (u64)(ca + 1)}, {"serial", name * 7}}); return mint(o); };
  Cert root = mk(1, 1, rk, rk, 1500000000, 1900000000, 1); u64 is = 1; size_t ik = rk; std::vector<Bytes> more; if (cfg("depth")) { Cert i = mk(2, 1, 4, rk, 1500000050, 1800000000, 1); more.push_back(i.der); is = 2; ik = 4; }
  chainDer = {mk(pin ? 1000001 : 10, is, serverKey, ik, 1500000100, 1700000000, 0).der}; for (auto& m : more) chainDer.push_back(m); serverName = dn(nm).back().first.substr(0, 2) == "CN" ? dn(nm).back().second : dn(nm).front().second;
  selfCert = mk(nm, nm, impKey, impKey, 1500000100, 1700000000, 1).der; fakeCaCert = mk(nm, 1, impKey, impKey, 1500000100, 1700000000, 0).der; expiredCert = mk(nm, 1, impKey, rk, 1500000100, 1550000000, 0).der; futureCert = mk(nm, 1, impKey, rk, 1650000000, 1700000000, 0).der; otherCert = mk(11, 1, impKey, rk, 1500000100, 1700000000, 0).der; strangerCert = mk(nm, is, impKey, impKey, 1500000100, 1700000000, 0).der;
  fakeRootCert = mk(1, 1, impKey, impKey, 1500000000, 1900000000, 1).der; fakeMidCert = mk(2, 1, impKey, impKey, 1500000050, 1800000000, 1).der; midIssued = mk(nm, 2, impKey, impKey, 1500000100, 1700000000, 0).der;
  Bytes p = oracle::pem(oracle::rsa(serverKey).derPriv, "RSA PRIVATE KEY"); serverPem = p; std::vector<const Cert*> rp{&root}; files::script = files::Script(); files::script.active = true; files::script.path = BUNDLE; files::script.content = bundleText(rp, cfg("seed") % 16); Caligo::Truststore::Instance(); files::script.active = false;
  for (u64 i = 0; i < std::min<u64>(std::max<u64>(cfg("n"), 1), 40); i++) { wantC.push_back(data(mix(cfg("seed"), i), cfg("len") % 20000)); wantS.push_back(data(mix(cfg("seed"), 1000 + i), 1 + (cfg("len") + i * 37) % 20000)); } }
}
static void run(const Plan& plan, Ctx& c) {
  const Op* cfg = nullptr; for (auto& o : plan) if (o.k == "cfg") cfg = &o; if (!cfg) return; World w(c, *cfg); w.setup();
  for (auto& o : plan) { u64 k = 0; for (char q : o.k) k = k * 31 + q; c.shp(k * 977 + o("k") * 31 + o("i") * 7 + o("at") / 200 + o("mode") * 3 + o("h") * 11 + o("n") * 13); u64 end = o("at") + o("for");
    if (o.k == "net") w.net[o("i")] = o; else if (o.k == "entropy") w.ent[o("i")] = o; else if (o.k == "oom") w.oom[o("i")] = o; else if (o.k == "part") { w.parts.push_back(o); w.horizon = std::max(w.horizon, end); c.fault("partition"); } else if (o.k == "clock") { w.clocks.push_back(o); w.horizon = std::max(w.horizon, end); c.fault("clock jump"); } else if (o.k == "impostor") { w.impostors.push_back(o); w.horizon = std::max(w.horizon, end); } else if (o.k == "crash") { w.horizon = std::max(w.horizon, end); w.crashes.push_back(o); } }
  u64 pos = 0; entropy::install([&](u8* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (u8)(mix((*cfg)("seed") ^ 0xabcdef, pos++) >> 24); }); entropy::script([&](u64, size_t) { auto it = w.ent.find(w.ecalls++); if (it == w.ent.end()) return EntropyEvent{0, 0}; auto o = it->second; int k = (int)o("k"); c.fault(k == 1 ? "entropy: short read" : k == 2 ? "entropy: interrupted" : "entropy: error"); w.horizon = std::max(w.horizon, w.now + 4000); return EntropyEvent{k, k == 3 ? (u64)EIO : o("arg")}; });
  w.cl = std::make_unique<World::Client>(w); w.sv = std::make_unique<World::Server>(w);
  for (auto& o : w.crashes) w.after(o("at"), [&w, &c, o] { bool server = o("node") & 1; if (w.answered >= w.wantC.size()) return; c.fault(server ? "server crash" : "client crash"); if (server) w.sv.reset(); else w.cl.reset(); w.after(o("for"), [&w, server] { if (server) { if (!w.sv) w.sv = std::make_unique<World::Server>(w); } else if (!w.cl) w.cl = std::make_unique<World::Client>(w); }); });
  u64 steps = 0; while (!w.q.empty() && w.answered < w.wantC.size()) { auto e = w.q.top(); w.q.pop(); w.now = e.t; e.f(); steps++; u64 lim = w.horizon + 60 * SEC + 400 * w.wantC.size() * (1 + (*cfg)("jit") % 400 / 100); c.check(w.now <= lim && steps < 200000, "no-progress", "faults stopped at " + std::to_string(w.horizon) + " ms, at " + std::to_string(w.now) + " ms only " + std::to_string(w.answered) + " of " + std::to_string(w.wantC.size()) + " replies have arrived"); }
  c.check(w.answered == w.wantC.size(), "no-progress", "nothing left to do, but only " + std::to_string(w.answered) + " of " + std::to_string(w.wantC.size()) + " replies have arrived"); w.checkAll(); entropy::reset(); c.st.simtime += w.now; c.note(w.now); c.note(w.pkt); c.note(w.completed); for (auto& [k, t] : w.ctrack) { c.note(t.ch); c.note(t.sh); c.note(t.th); } if (w.completed > 1) c.probe("more than one session needed"); c.probe(w.mode == BOTH_LIB ? "library on both sides" : w.mode == REF_SERVER ? "library client, reference server" : "reference client, library server");
}
static void warm() { for (size_t i = 0; i < oracle::rsaCount(); i++) oracle::rsa(i); }
sim::Scenario sim::scenario{"C15", gen, run, fixed, warm};
