// C12: creating the trust store from a bundle on a faulty disk. The bundle file is virtual: every open, stat and read is scripted.
#include "pki.h"
#include <cerrno>
using namespace sim; using namespace pki;
static const std::vector<u64> KEYS = {0, 1, 23, 24, 5, 6, 21, 22, 4, 15};
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 n = r.chance(1, 60) ? r.range(31, 90) : r.chance(1, 10) ? r.range(8, 30) : r.range(0, 6), id = 0; int64_t T = 1500000000;
  for (u64 i = 0; i < n; i++) { u64 nm = r.chance(1, 15) && i ? 1 + r.below(i) : i && r.chance(1, 8) ? sibling(1 + r.below(i), r.next() >> 8) : i + 1; p.push_back(Op("root", {{"id", id++}, {"name", nm}, {"issuer", r.chance(1, 6) ? 1 + r.below(n + 2) : nm}, {"key", r.pick(KEYS)}, {"hash", r.below(3)}, {"nb", off(T)}, {"na", off(T + 400000000)}, {"ca", r.below(3) == 0 ? 0 : 2}, {"ver", r.chance(1, 15) ? r.range(1, 2) : 3}, {"ec", r.chance(1, 15)}, {"serial", r.next() >> 20}, {"odd", r.chance(1, 12) ? r.range(1, 4) : 0}, {"pad", r.chance(1, 12) ? r.below(r.chance(1, 3) ? 300000 : 9000) : 0}})); if (r.chance(1, 4)) p.back().a.push_back({"ext", r.below(16)}); if (r.chance(1, 20)) p.back().a.push_back({"pext", r.range(100, r.chance(1, 3) ? 70000 : 5000)}); }
  p.push_back(Op("text", {{"style", r.below(64)}}));
  u64 attempts = r.range(1, 4);
  for (u64 a = 0; a < attempts; a++) { bool last = a + 1 == attempts; u64 k = last && r.chance(1, 2) ? r.below(2) : r.below(12); Op o("attempt"); auto& v = o.a;
    auto reads = [&](u64 kind, u64 arg) { v.push_back({"at", r.chance(1, 2) ? r.below(4) : r.below(40)}); v.push_back({"kind", kind}); v.push_back({"arg", arg}); };
    switch (k) { case 0: break;
      case 1: v.push_back({"chunk", r.chance(1, 3) ? r.range(1, 8) * 64 : r.range(256, 9000)}); if (r.chance(1, 2)) reads(2, 0); break;
      case 2: v.push_back({"open", r.chance(1, 3) ? ENOENT : r.chance(1, 2) ? EACCES : EMFILE}); break;
      case 3: v.push_back({"stat", r.chance(1, 2) ? EACCES : EIO}); break;
      case 4: v.push_back({"chunk", r.range(256, 4000)}); reads(3, EIO); break;
      case 5: v.push_back({"chunk", r.range(256, 4000)}); reads(4, 0); break;
      case 6: case 7: v.push_back({"cut", 1 + r.below(1000000)}); break;
      case 8: v.push_back({"grow", 1 + r.below(5000)}); break;         // stat reported more than is there
      case 9: v.push_back({"shrink", 1 + r.below(1000000)}); break;    // stat reported less than is there
      case 10: v.push_back({"cut", 1 + r.below(1000000)}); v.push_back({"zero", 1}); break; // tail never made it to disk
      default: v.push_back({"cutend", 1 + r.below(80)}); }
    p.push_back(o); }
  p.push_back(Op("attempt"));
}
static std::vector<Plan> fixed(const Tier&) { // large bundles, and large certificates
  std::vector<Plan> v; for (u64 n : {66, 130, 300, 520}) { Plan p; for (u64 i = 0; i < n; i++) p.push_back(Op("root", {{"id", i}, {"name", i + 1}, {"issuer", i + 1}, {"key", KEYS[4 + i % 6]}, {"hash", 0}, {"nb", off(1500000000)}, {"na", off(1900000000)}, {"ca", 2}, {"ver", 3}, {"serial", i * 977}, {"ext", i % 16}})); p.push_back(Op("text", {{"style", n % 16}})); p.push_back(Op("attempt")); v.push_back(p); }
  for (u64 e : {900, 2000, 3000, 4200, 8300, 17000, 33000, 66000, 131100}) { Plan p; for (u64 i = 0; i < 4; i++) p.push_back(Op("root", {{"id", i}, {"name", i + 1}, {"issuer", i + 1}, {"key", KEYS[i]}, {"hash", 0}, {"nb", off(1500000000)}, {"na", off(1900000000)}, {"ca", 2}, {"ver", 3}, {"serial", i * 977}, {"pext", i % 2 ? 0 : e}})); p.push_back(Op("text", {{"style", e % 16}})); p.push_back(Op("attempt")); v.push_back(p); }
  return v; }
static Bytes oddRoot(Bytes d, u64 kind) { // certificates a store cannot use: refused key, unreadable content
  static const u8 e[] = {0x02, 0x03, 0x01, 0x00, 0x01}; auto it = std::search(d.begin(), d.end(), std::begin(e), std::end(e)); if (it == d.end()) return d;
  if (kind == 1) { it[2] = 0; it[3] = 0; it[4] = 3; } else if (kind == 2) it[-1] &= 0xFE; else if (kind == 3) d.resize(d.size() / 2); else { Layout L = layout(d); d[L.tbs0] ^= 0x10; } return d; }
static void run(const Plan& plan, Ctx& c) {
  struct R { Cert c; Bytes der; u64 odd, pad; }; std::vector<R> roots; bool loaded = false; u64 style = 0;
  for (auto& op : plan) if (op.k == "root") { R x{mint(op), {}, op("odd"), op("pad")}; x.der = x.odd ? oddRoot(x.c.der, x.odd) : x.c.der; if (x.der == x.c.der) x.odd = 0; roots.push_back(x); } else if (op.k == "text") style = op("style");
  // the intact text, and for each certificate where its last base64 character is
  std::string text; std::vector<size_t> ends; if (style & 16) text += "some leading text\r\n";
  for (auto& x : roots) { if (x.pad) { u64 n = std::min<u64>(x.pad, 1000000); std::string line = "# " + std::string(61, '.') + "\n"; while (n > line.size()) { text += line; n -= line.size(); } text += std::string(n, '#') + "\n"; } if (style & 1) text += "# certificate " + std::to_string(x.c.name) + "\n"; Bytes b = oracle::pem(x.der, "CERTIFICATE", style & 2 ? "\r\n" : "\n", style & 4 ? 76 : 64); std::string s((const char*)b.data(), b.size()); ends.push_back(text.size() + s.find_last_of("=", s.find("-----END")) == std::string::npos ? 0 : text.size() + s.find("-----END")); text += s; if (style & 8) text += "\n\n"; }
  if (style & 32) while (!text.empty() && (text.back() == '\n' || text.back() == '\r')) text.pop_back();
  // what an application sees as the name of each certificate
  auto nameOf = [&](const R& x) { std::vector<Caligo::x509certificate> v; if (!parse(x.c.der, v)) return std::string(); return v[0].subject; };
  auto usable = [&](const R& x) { return !x.odd && x.c.supported(); };
  { // the bundle parser on its own, on a buffer of exactly the text's size
    Given b({(const u8*)text.data(), text.size()}); auto v = Caligo::parseCertificatesPem(b); b.ok(); size_t i = 0; for (auto& x : roots) if (usable(x)) { while (i < v.size() && v[i].derCert != x.der) { c.check(v[i].derCert.empty() || std::any_of(roots.begin(), roots.end(), [&](auto& y) { return y.der == v[i].derCert; }), "bundle-invented-certificate", "the bundle parser returned a certificate that is not in the bundle"); i++; } c.check(i < v.size(), "bundle-certificate-missing", "certificate " + std::to_string(x.c.name) + " of " + std::to_string(roots.size()) + " missing or out of order"); i++; } }
  size_t n = 0;
  for (auto& op : plan) {
    c.step(); if (op.k != "attempt" || loaded) continue; n++; u64 kk = op("cut") ? 1 : op("open") ? 2 : op("stat") ? 3 : op("kind") * 5 + 10; c.shp(kk * 1009 + roots.size() * 31 + style + (op("cut") + op("cutend") + op("shrink")) % 97);
    auto& f = files::script; f = files::Script(); f.active = true; f.path = BUNDLE; f.content = text; bool full = true, mustThrow = false;
    if (op("cut") || op("cutend")) { size_t keep = op("cutend") ? text.size() - std::min<size_t>(op("cutend"), text.size()) : op("cut") % (text.size() + 1); f.content.resize(keep); if (op("zero")) f.content.resize(text.size(), 0); full = false; c.fault(op("zero") ? "bundle tail zero-filled" : "bundle truncated"); }
    f.chunk = op("chunk"); f.openErr = (int)op("open"); f.statErr = (int)op("stat");
    if (op("kind")) f.faults.push_back({op("at"), (int)op("kind"), op("arg")});
    if (op("grow")) { f.haveStatSize = true; f.statSize = f.content.size() + op("grow"); full = false; c.fault("file smaller than reported"); }
    if (op("shrink")) { f.haveStatSize = true; f.statSize = f.content.size() - op("shrink") % (f.content.size() + 1); full = false; c.fault("file larger than reported"); }
    Caligo::Truststore* ts = nullptr; try { ts = &Caligo::Truststore::Instance(); } catch (const std::exception& e) { c.probe("creation refused with an exception"); }
    if (f.openErr) { c.fault("open failed"); mustThrow = true; } if (f.statErr) { c.fault("stat failed"); full = false; } if (f.eio) { c.fault("read error"); mustThrow = true; } if (f.eof) { c.fault("premature end of file"); full = false; } if (f.chunk && f.reads > 1) c.fault("short reads", f.reads - 1); if (f.fired && op("kind") == 2) c.fault("interrupted read");
    f.active = false; std::string at = "attempt " + std::to_string(n) + ": " + op.text(); c.note(ts != nullptr);
    if (!ts) { c.check(!full || mustThrow || f.fired, "readable-bundle-refused", at); continue; }
    c.check(!mustThrow, "unreadable-bundle-accepted", at + ": a store was created although the bundle could not be read");
    loaded = true;
    std::map<std::string, std::set<Bytes>> may; std::map<std::string, Bytes> must; for (size_t i = 0; i < roots.size(); i++) if (usable(roots[i])) { std::string nm = nameOf(roots[i]); may[nm].insert(roots[i].der); must[nm] = roots[i].der; }
    std::map<u64, std::string> names; for (auto& x : roots) names[x.c.name] = nameOf(x); std::map<std::string, u64> owner; for (auto& x : roots) if (usable(x)) c.check(owner.emplace(names[x.c.name], x.c.name).first->second == x.c.name, "roots-confused", at + ": two certificates of different names are indistinguishable in the store");
    std::set<std::string> probes{"", "nobody"}; for (auto& [k, v] : names) probes.insert(v); oracle::CertSpec ds; ds.subject = ds.issuer = dn(5000); ds.notAfter = 2000000000; { std::vector<Caligo::x509certificate> v; if (parse(oracle::mintCert(ds), v)) probes.insert(v[0].subject); }
    for (auto& nm : probes) { auto g = ts->get(nm); c.note(g.has_value());
      if (!g) { if (full) c.check(!must.count(nm), "root-missing", at + ": an intact certificate of the bundle is not in the store"); continue; }
      const Bytes& got = (*g)->derCert; bool known = false; if (may.count(nm)) for (auto& d : may[nm]) known |= got.size() >= d.size() && std::equal(d.begin(), d.end(), got.begin()) && (got.size() == d.size() || !full);
      c.check(known, "wrong-root", at + ": the store holds a certificate the bundle does not contain"); if (full) c.check(got == must[nm], "wrong-root", at + ": the store holds another certificate of this name"); }
    // decisions: a certificate issued by each root (and by a stranger using the root's name)
    for (size_t i = 0; i <= std::min<size_t>(roots.size(), 4); i++) { oracle::CertSpec s; s.subject = {{"CN", "leaf"}}; s.notBefore = 1500000100; s.notAfter = 1800000000; s.key = 25; s.serial = 7; bool stranger = i == roots.size() || i == 4; const R* x = roots.empty() ? nullptr : &roots[i % roots.size()];
      s.issuer = dn(x && !(stranger && n % 2) ? x->c.name : 5000); s.signKey = x ? (stranger ? (x->c.key == 5 ? 6 : 5) : x->c.key) : 5; std::vector<Caligo::x509certificate> v; if (!parse(oracle::mintCert(s), v)) c.fail("intact-certificate-unparsable", "leaf"); bool t = ts->trust(v, 1600000000); c.note(t);
      bool possible = false; if (x) for (auto& y : roots) possible |= usable(y) && !y.c.ec && y.c.name == x->c.name && y.c.key == s.signKey && !(stranger && n % 2); c.check(!t || possible, "wrong-root-trusted", at + ": a certificate is trusted that the intact bundle would not make trusted");
      if (full && x && !stranger && usable(*x) && !x->c.ec && must[nameOf(*x)] == x->der) { c.check(t, "root-not-effective", at + ": a certificate issued by an intact root of the bundle is refused"); c.probe("root of the bundle used"); } }
    c.probe(full ? "complete store" : "store from a damaged file");
  }
  c.fault("load attempts", n);
}
static void warm() { for (size_t i = 0; i < oracle::rsaCount(); i++) oracle::rsa(i); }
sim::Scenario sim::scenario{"C12", gen, run, fixed, warm};
