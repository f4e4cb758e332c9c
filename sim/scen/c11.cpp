// C11: trust decisions over certificates arriving in any order and state, at any time, against a reference model.
#include "pki.h"
using namespace sim; using namespace pki;
static const std::vector<u64> KEYS = {0, 1, 23, 24, 5, 6, 21, 22, 4, 15, 19};
// many certificates at once: a long chain, unrelated ones that verify, ones whose issuer is unknown, and forged ones, all around a genuine chain
static void crowd(Rng& r, Plan& p, u64 depth, u64 kin, u64 strangers, u64 forged, u64 order) {
  u64 id = 0, T = 1500000000; auto put = [&](u64 name, u64 issuer, u64 key, u64 sign, bool root, u64 ca) { p.push_back(Op("cert", {{"id", id}, {"name", name}, {"issuer", issuer}, {"key", key}, {"sign", sign}, {"hash", 0}, {"nb", off(T)}, {"na", off(T + 1000000)}, {"ca", ca}, {"ver", 3}, {"serial", r.next() >> 20}, {"root", root}})); return id++; };
  static const std::vector<u64> K = {5, 6, 15, 4}; u64 rk = r.pick(K), k = rk, prev = 1; put(1, 1, rk, rk, true, 2); std::vector<u64> ch, rest;
  for (u64 i = 0; i <= depth; i++) { u64 nk = r.pick(K); ch.push_back(put(2 + i, prev, nk, k, false, i == depth ? 1 : 2)); prev = 2 + i; k = nk; }
  for (u64 i = 0; i < kin; i++) rest.push_back(put(10000 + i, 1, r.pick(K), rk, false, 1)); for (u64 i = 0; i < strangers; i++) rest.push_back(put(20000 + i, 500, r.pick(K), r.pick(K), false, 2));
  for (u64 i = 0; i < forged; i++) { bool twin = r.chance(1, 2); u64 fk = r.pick(K); while (fk == rk) fk = r.pick(K); rest.push_back(put(twin ? 2 + r.below(depth + 1) : 30000 + i, 1, r.pick(K), fk, false, 2)); }
  p.push_back(Op("load", {{"style", 0}})); auto say = [&](u64 x) { p.push_back(Op("show", {{"id", x}})); }; std::vector<u64> v(ch.rbegin() + 1, ch.rend());
  if (order == 0) v.insert(v.begin(), rest.begin(), rest.end()); else if (order == 1) v.insert(v.end(), rest.begin(), rest.end()); else { v.insert(v.end(), rest.begin(), rest.end()); for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[r.below(i + 1)]); }
  say(ch.back()); for (u64 x : v) say(x); p.push_back(Op("decide", {{"t", T + 5}})); if (!v.empty() && r.chance(1, 2)) { say(ch.back()); for (u64 x : v) if (x != (depth ? ch[depth / 2] : 0)) say(x); p.push_back(Op("decide", {{"t", T + 5}})); } }
static void gen(Rng& r, Plan& p, const Tier&) {
  if (r.chance(1, 50)) { crowd(r, p, r.chance(1, 2) ? r.below(30) : r.below(6), r.chance(1, 2) ? r.below(40) : 0, r.chance(1, 2) ? r.below(40) : 0, r.chance(1, 2) ? r.below(30) : 0, r.below(3)); return; }
  u64 id = 0, names = 1; int64_t T = r.chance(1, 8) ? (int64_t)r.range(0, 253000000000ULL) : r.chance(1, 6) ? 951000000 + (int64_t)r.below(3200000000ULL) : 1500000000 + (int64_t)r.below(100000000); int64_t W = r.chance(1, 4) ? 3600 : 86400LL * r.range(1, 4000);
  struct G { u64 id, name, issuer, key; int64_t nb, na; bool root; std::vector<std::pair<std::string, u64>> a; }; std::vector<G> g;
  bool weird = r.chance(1, 2); u64 sameSerial = r.chance(1, 3) ? r.next() >> 20 : 0;
  auto put = [&](u64 name, u64 issuer, u64 key, u64 sign, int64_t nb, int64_t na, bool root, u64 ca) { if (r.chance(1, 16)) nb = std::min<int64_t>(nb, -631152000 + (int64_t)r.below(315532800)); nb = std::max<int64_t>(nb, -631152000); na = std::min<int64_t>(std::max<int64_t>(na, -631152000), 253402300799LL); int64_t gnb = nb, gna = na; if (weird && r.chance(1, 25)) { na = -r.pick(std::vector<int64_t>{0, 1, 86400, 315532800, 631151999}); nb = std::min(nb, na); } bool gt = r.chance(1, 5) || nb >= 2524608000LL; g.push_back({id, name, issuer, key, gnb, gna, root, {}}); u64 hash = weird && r.chance(1, 14) ? 3 + r.below(2) : r.below(3);
    p.push_back(Op("cert", {{"id", id++}, {"name", name}, {"issuer", issuer}, {"key", key}, {"sign", sign}, {"hash", hash}, {"nb", off(nb)}, {"na", off(na)}, {"ca", ca}, {"ver", weird && r.chance(1, 20) ? r.range(1, 2) : ca == 0 && r.chance(1, 3) ? 1 : 3}, {"ec", weird && r.chance(1, 25)}, {"gen", gt}, {"serial", sameSerial && r.chance(2, 3) ? sameSerial : r.next() >> 20}, {"root", root}})); if (r.chance(1, 4)) p.back().a.push_back({"ext", r.below(16)}); if (r.chance(1, 30)) p.back().a.push_back({"pext", r.range(100, r.chance(1, 3) ? 70000 : 5000)}); return g.size() - 1; };
  u64 nr = r.range(1, 3); for (u64 i = 0; i < nr; i++) { u64 k = r.chance(1, 40) ? r.pick(std::vector<u64>{2, 3, 7, 8}) : r.pick(KEYS); u64 nm = i && r.chance(1, 3) ? sibling(g[r.below(i)].name, r.next() >> 8) : names++; put(nm, nm, k, k, T - W, T + W, true, r.chance(1, 4) ? 0 : 2); }
  std::vector<std::pair<size_t, size_t>> twins; if (r.chance(1, 3)) for (u64 i = 0; i < nr; i++) if (r.chance(1, 2)) { u64 k = r.pick(KEYS); twins.push_back({i, put(g[i].name, g[i].issuer, k, k, T - W, T + W, false, 2)}); }
  std::vector<std::vector<size_t>> chains; u64 nc = r.range(1, 3);
  for (u64 q = 0; q < nc; q++) { size_t cur = r.below(g.size()); std::vector<size_t> ch; u64 depth = r.chance(1, 12) ? r.range(5, 14) : r.below(4);
    for (u64 d = 0; d <= depth; d++) { bool leaf = d == depth; int64_t a = (g[cur].na - g[cur].nb), nb = g[cur].nb + (r.chance(1, 2) ? 0 : (int64_t)r.below(a / 4 + 1)), na = g[cur].na - (r.chance(1, 2) ? 0 : (int64_t)r.below(a / 4 + 1)); u64 sign = g[cur].key, issuer = g[cur].name, name = r.chance(1, 10) ? sibling(g[r.below(g.size())].name, r.next() >> 8) : names++;
      if (weird) { if (r.chance(1, 12)) nb = g[cur].nb - (r.chance(1, 2) ? 1 : 86400); if (r.chance(1, 12)) na = g[cur].na + (r.chance(1, 2) ? 1 : 86400); if (r.chance(1, 10)) sign = r.pick(KEYS); if (r.chance(1, 16)) issuer = 1 + r.below(names); if (r.chance(1, 14)) name = 1 + r.below(names - 1); }
      u64 key = r.pick(KEYS); size_t n = put(name, issuer, key, sign, nb, na, false, leaf ? (r.chance(1, 2) ? 1 : 0) : weird && r.chance(1, 10) ? 1 : r.chance(1, 5) ? 0 : 2); ch.push_back(n); cur = n; }
    chains.push_back(ch);
    if (r.chance(1, 4) && !ch.empty()) { // a second certificate for a name in the chain (renewed, cross-signed, or forged), a cycle, a self-signed twin
      auto& b = g[r.pick(ch)]; auto& is = g[r.below(g.size())]; u64 k = r.chance(1, 2) ? b.key : r.pick(KEYS); size_t n = put(b.name, r.chance(1, 2) ? b.issuer : is.name, k, r.chance(1, 3) ? k : r.chance(1, 2) ? is.key : r.pick(KEYS), T - W / 2, T + W / 2, false, 2); chains.back().push_back(n); } }
  p.push_back(Op("load", {{"style", r.below(16)}})); u64 rate = r.pick(std::vector<u64>{0, 1, 3}); u64 dec = r.range(2, 7);
  for (u64 d = 0; d < dec; d++) {
    auto ch = r.pick(chains); std::vector<size_t> v(ch.rbegin(), ch.rend()); if (v.empty()) continue; size_t cut = r.chance(1, 5) ? r.below(v.size()) : 0; v.erase(v.begin(), v.begin() + cut);
    size_t begun = p.size(); std::vector<std::pair<size_t, u64>> pr; for (auto x : v) pr.push_back({x, 0});
    for (size_t i = pr.size(); i-- > 1;) { size_t j = 1 + r.below(i); if (r.chance(3, 4)) std::swap(pr[i], pr[j]); }
    if (r.chance(rate, 8) && pr.size() > 1) pr.erase(pr.begin() + 1 + r.below(pr.size() - 1)), p.push_back(Op("lost"));
    while (r.chance(1, 3)) pr.insert(pr.begin() + r.range(1, pr.size()), {r.below(g.size()), 0});
    if (r.chance(1, 4)) pr.push_back(pr[r.below(pr.size())]);
    for (size_t i = 0; i < pr.size(); i++) { u64 mut = r.chance(rate, 10) ? r.range(1, 11) : 0; if (mut && r.chance(1, 2)) p.push_back(Op("show", {{"id", pr[i].first}, {"mut", mut}, {"x", r.next() >> 20}, {"y", r.next() >> 20}, {"pem", r.chance(1, 6)}}));
      bool keep = i == 0 || !mut || r.chance(1, 2); if (keep) p.push_back(Op("show", {{"id", pr[i].first}, {"mut", mut && !r.chance(1, 2) ? mut : 0}, {"x", r.next() >> 20}, {"y", r.next() >> 20}, {"pem", r.chance(1, 6)}})); }
    auto& l = g[pr[0].first]; int64_t t; switch (r.below(8)) { case 0: t = l.nb; break; case 1: t = l.na; break; case 2: t = l.nb - 1; break; case 3: t = l.na + 1; break; case 4: t = (int64_t)(r.next() >> 30); break; default: t = l.nb + (int64_t)r.below(std::max<int64_t>(l.na - l.nb, 1)); } if (t < 0) t = 0;
    p.push_back(Op("decide", {{"t", (u64)t}, {"again", r.chance(1, 4)}}));
    if (r.chance(1, 6)) p.push_back(Op("add", {{"id", r.below(g.size())}}));
    if (!twins.empty() && r.chance(1, 2)) { // a trusted certificate is replaced by another one of the same name; the same certificates are shown again
      Plan same(p.begin() + begun, p.end()); auto tw = r.pick(twins); std::vector<size_t> steps = {tw.second}; if (r.chance(1, 2)) steps.push_back(tw.first); if (r.chance(1, 4)) std::swap(tw.first, tw.second);
      for (size_t x : steps) { p.push_back(Op("add", {{"id", g[x].id}})); for (auto& o : same) if (o.k == "show" || o.k == "decide") p.push_back(o); } }
    if (r.chance(1, 6)) p.push_back(Op("clock", {{"t", r.chance(1, 3) ? ~0ULL : r.chance(1, 2) ? 0 : (u64)(T + W * (int64_t)r.range(1, 9))}}));
  }
}
static void run(const Plan& plan, Ctx& c) {
  std::map<u64, Cert> certs; Store st; std::vector<const Cert*> roots; bool loaded = false; std::vector<Shown> shown; std::vector<bool> pemf;
  auto load = [&](u64 style) { if (loaded) return; loaded = true; files::script.active = true; files::script.path = BUNDLE; files::script.content = bundleText(roots, style); Caligo::Truststore::Instance(); for (auto* x : roots) if (x->supported()) st.roots[x->name] = x; };
  auto decide = [&](u64 t, bool again) {
    if (shown.empty()) return; load(0); auto& ts = Caligo::Truststore::Instance(); std::vector<Caligo::x509certificate> v; std::vector<Shown> s;
    bool firstOk = false; for (size_t i = 0; i < shown.size(); i++) { bool ok = parse(shown[i].der, v, pemf[i]); if (i == 0) { firstOk = ok; if (!ok) break; } if (ok) s.push_back(shown[i]); if (!ok) c.probe("unparsable certificate refused with an exception"); else if (shown[i].st == Valid) { auto& x = v.back(); auto& m = *shown[i].c; c.check(x.validity_start == (u64)m.enb() && x.validity_end == (u64)m.ena(), "validity-misread", "certificate valid from " + std::to_string(m.nb) + " to " + std::to_string(m.na) + " read as " + std::to_string(x.validity_start) + " to " + std::to_string(x.validity_end)); } }
    if (!firstOk) { c.check(shown[0].st != Valid, "intact-certificate-unparsable", "certificate " + std::to_string(shown[0].c->name)); return; }
    int e = expected(s, st, t); bool r = ts.trust(v, t); c.note(r); std::string at = std::to_string(s.size()) + " certificates, time " + std::to_string(t);
    if (r && e == 0) c.fail("trusted-without-chain", at); if (!r && e == 1) c.fail("genuine-chain-refused", at);
    if (r && e == 3) { c.known.push_back("leaf-issuer"); }
    c.probe(e == 1 ? "genuine chain" : e == 0 ? "no chain" : e == 3 ? "chain through a certificate that is not a CA" : "ambiguous"); if (e == 1 && s.size() > 5) c.probe("genuine chain among more than five certificates");
    if (again) { // the same objects again, then freshly parsed ones: nothing may have been learned
      bool r2 = ts.trust(v, t); c.check(!(r2 && e == 0), "trusted-without-chain", at + " on repetition"); std::vector<Caligo::x509certificate> w; for (size_t i = 0; i < shown.size(); i++) parse(shown[i].der, w, pemf[i]); bool r3 = ts.trust(w, t); c.check(r3 == r, "decision-not-repeatable", at); c.fault("decision repeated"); }
  };
  u64 lastT = 0;
  for (auto& op : plan) {
    c.step(); u64 k = 0; for (char q : op.k) k = k * 31 + q; c.shp(k * 977 + op("id") * 31 + op("mut") * 7919 + op("issuer") * 131 + op("sign") * 3 + op("hash") * 7);
    if (op.k == "cert") { if (loaded || certs.count(op("id"))) continue; Cert m = mint(op); auto& ref = certs[op("id")] = m; if (op("root")) roots.push_back(&ref); }
    else if (op.k == "load") load(op("style"));
    else if (op.k == "lost") c.fault("certificate lost");
    else if (op.k == "show") { auto it = certs.find(op("id")); if (it == certs.end()) continue; const char* w; auto o = certs.find(op("y") % certs.size()); shown.push_back(damage(it->second, op("mut"), op("x"), op("y"), o == certs.end() ? nullptr : &o->second, &w)); pemf.push_back(op("pem")); if (w) c.fault(w); }
    else if (op.k == "decide") { decide(op("t"), op("again")); lastT = op("t"); shown.clear(); pemf.clear(); c.fault("presentation order"); }
    else if (op.k == "clock") { c.fault("clock jump"); if (!shown.empty()) decide(op("t"), false); }
    else if (op.k == "add") { load(0); auto it = certs.find(op("id")); if (it == certs.end()) continue; std::vector<Caligo::x509certificate> v; if (parse(it->second.der, v) && it->second.supported()) { std::string n = v[0].subject; Caligo::Truststore::Instance().addCertificate(std::move(v[0])); st.roots[it->second.name] = &it->second; auto g = Caligo::Truststore::Instance().get(n); c.check(g && (*g)->derCert == it->second.der, "added-certificate-missing", n); c.fault("certificate added to the store"); } }
  }
  (void)lastT; for (auto& [n, m] : st.roots) { std::vector<Caligo::x509certificate> v; if (!parse(m->der, v)) continue; auto g = Caligo::Truststore::Instance().get(v[0].subject); c.check(g && (*g)->derCert == m->der, "store-changed", "a trusted certificate is no longer the one that was stored"); }
}
static std::vector<Plan> fixed(const Tier&) {
  std::vector<Plan> v; auto one = [&](u64 d, u64 k, u64 s, u64 f, u64 o) { Rng r(d * 7 + k + s * 3 + f * 5 + o); Plan p; crowd(r, p, d, k, s, f, o); v.push_back(p); };
  for (u64 o : {0, 1, 2}) { one(45, 0, 0, 0, o); one(3, 140, 0, 0, o); one(2, 0, 300, 0, o); one(2, 0, 0, 40, o); one(20, 20, 20, 20, o); one(70, 0, 0, 0, o); }
  return v; }
static void warm() { for (size_t i = 0; i < oracle::rsaCount(); i++) oracle::rsa(i); }
sim::Scenario sim::scenario{"C11", gen, run, fixed, warm};
