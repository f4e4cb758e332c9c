// C02: threads ask for the system trust store for the first time, under simulated schedules, while load attempts fail.
#include "pki.h"
#include <cerrno>
using namespace sim; using namespace pki;
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 t = r.range(2, 4), n = r.chance(1, 8) ? 0 : r.range(1, 4); p.push_back(Op("sched", {{"seed", 1 + (r.next() >> 20)}, {"edge", r.pick(std::vector<u64>{10, 60, 400, 3000})}, {"hot", r.below(4)}, {"glob", r.pick(std::vector<u64>{0, 1, 3, 20})}}));
  for (u64 i = 0; i < n; i++) p.push_back(Op("root", {{"name", i + 1}, {"issuer", i + 1}, {"key", r.chance(1, 2) ? 1 : 23}, {"ec", r.chance(5, 6)}, {"nb", off(1500000000)}, {"na", off(1900000000)}, {"ver", 3}, {"serial", r.next() >> 20}}));
  for (u64 i = 0; i < t; i++) p.push_back(Op("ask", {{"t", i}, {"n", r.range(1, 3)}}));
  u64 f = r.chance(1, 3) ? 0 : r.range(1, 4); for (u64 i = 0; i < f; i++) p.push_back(Op("attempt", {{"i", r.below(4)}, {"open", r.chance(1, 2) ? r.pick(std::vector<u64>{ENOENT, EACCES, EMFILE}) : 0}, {"stat", r.chance(1, 3) ? EIO : 0}, {"read", r.chance(1, 2) ? EIO : 0}, {"at", r.below(3)}, {"chunk", r.chance(1, 2) ? r.range(200, 2000) : 0}}));
  if (r.chance(1, 3)) p.push_back(Op("oom", {{"at", r.chance(1, 2) ? r.below(8) : r.below(400)}, {"n", r.range(1, 3)}}));
  p.push_back(Op("chunk", {{"n", r.range(100, 3000)}}));
  if (r.chance(1, 2)) p.push_back(Op("swap", {{"name", 50}, {"keep", r.below(4)}}));
  if (n == 0 || r.chance(1, 8)) p.push_back(Op("adder", {{"t", r.below(t)}, {"name", 91}}));
  if (r.chance(1, 2)) p.push_back(Op("late", {{"name", r.chance(1, 3) ? 1 : 77}, {"n", r.range(1, 3)}}));
}
static void run(const Plan& plan, Ctx& c) {
  sched::Config cfg; std::vector<Cert> roots; std::map<u64, u64> ask; std::map<u64, Op> attempt; u64 oomAt = 0, oomN = 0, chunk = 0; std::vector<Op> late; Op swap, adder;
  for (auto& op : plan) if (op.k == "sched") { cfg.seed = op("seed"); cfg.edgeDen = op("edge"); cfg.hotNum = op("hot"); cfg.hotDen = 4; cfg.globDen = op("glob"); } else if (op.k == "switch") { cfg.replay = true; cfg.explicitSwitches.push_back(op); } else if (op.k == "root") roots.push_back(mint(op)); else if (op.k == "ask") ask[op("t") % 4] += op("n"); else if (op.k == "attempt") attempt[op("i")] = op; else if (op.k == "oom") { oomAt = op("at"); oomN = op("n"); } else if (op.k == "swap") swap = op; else if (op.k == "adder") adder = op; else if (op.k == "chunk") chunk = op("n"); else if (op.k == "late") late.push_back(op);
  if (ask.empty()) return; if (!cfg.seed) cfg.replay = true;
  // names as an application sees them; taken in another process, so that the library is untouched when the threads start
  std::vector<Cert> later; if (!swap.k.empty()) { if (!swap("keep")) later = roots; else if (!roots.empty()) later.assign(roots.begin() + 1, roots.end()); later.push_back(mint(Op("root", {{"name", swap("name")}, {"issuer", swap("name")}, {"key", 23}, {"nb", off(1500000000)}, {"na", off(1900000000)}, {"ver", 3}, {"serial", 11}}))); }
  auto takeNames = [&](const std::vector<Cert>& certs) { std::vector<std::string> names; std::string out, how; if (!inChild([&] { std::string s; for (auto& x : certs) { auto v = Caligo::parseCertificate(x.der); s += v.subject; s += '\n'; } return s; }, out, how)) c.fail("crash:" + how, "parsing"); size_t p = 0; while (p < out.size()) { size_t e = out.find('\n', p); names.push_back(out.substr(p, e - p)); p = e + 1; } return names; };
  auto names = takeNames(roots), laterNames = takeNames(later); if (laterNames.size() != later.size()) return; if (names.size() != roots.size()) return;
  // one of the threads adds a certificate of its own as soon as it has the store; the others then only ask for the store
  std::vector<Cert> own; if (!adder.k.empty()) own.push_back(mint(Op("root", {{"name", adder("name")}, {"issuer", adder("name")}, {"key", 24}, {"nb", off(1500000000)}, {"na", off(1900000000)}, {"ver", 3}, {"serial", 12}}))); auto ownName = takeNames(own); if (ownName.size() != own.size()) return; std::vector<Cert> other{mint(Op("root", {{"name", 95}, {"issuer", 95}, {"key", 23}, {"nb", off(1500000000)}, {"na", off(1900000000)}, {"ver", 3}, {"serial", 13}}))}; auto on = takeNames(other); u64 ownLost = 0; bool added = false;
  std::vector<const Cert*> rp; for (auto& x : roots) rp.push_back(&x); auto& f = files::script; f = files::Script(); f.active = true; f.path = BUNDLE; f.content = bundleText(rp); f.chunk = chunk; std::string gone; u64 failing = 0;
  f.onOpen = [&](u64 i) { sched::point(); sched::Quiet q; f.openErr = f.statErr = 0; f.faults.clear(); auto it = attempt.find(i); if (it != attempt.end()) { auto& o = it->second; f.openErr = (int)o("open"); f.statErr = (int)o("stat"); if (o("chunk")) f.chunk = o("chunk"); if (o("read")) f.faults.push_back({f.reads + o("at"), 3, o("read")}); failing++; } sched::point(); };
  f.onRead = [](u64) { sched::point(); };
  struct Got { std::vector<std::pair<const void*, std::string>> r; u64 thrown = 0; }; std::vector<Got> got(4); std::vector<std::function<void()>> bodies; std::vector<u64> ids; for (auto& [t, n] : ask) ids.push_back(t);
  auto content = [&](Caligo::Truststore& ts) { std::string s; for (size_t i = 0; i < names.size(); i++) { auto g = ts.get(names[i]); if (!g) s += "missing " + std::to_string(i) + ";"; else if ((*g)->derCert != roots[i].der) s += "different " + std::to_string(i) + ";"; } return s; };
  if (oomN) alloc::arm(oomAt, oomN);
  for (size_t w = 0; w < ids.size(); w++) { u64 n = std::min<u64>(ask[ids[w]], 10); bodies.push_back([&, w, n] { for (u64 i = 0; i < n; i++) { try { Caligo::Truststore* ts; { alloc::Region R; ts = &Caligo::Truststore::Instance(); } std::string s; if (own.empty()) s = content(*ts); else if (ids[w] == adder("t")) { if (!added) { auto x = Caligo::parseCertificate(own[0].der); ts->addCertificate(std::move(x)); added = true; } auto g = ts->get(ownName[0]); sched::Quiet q; if (!g || (*g)->derCert != own[0].der) ownLost++; } sched::Quiet q; got[w].r.push_back({ts, s}); } catch (const std::exception&) { sched::Quiet q; got[w].thrown++; } } }); }
  bool ok = sched::run(bodies, cfg, c); u64 oom = alloc::disarm(); c.check(ok, "deadlock", "requests for the trust store block each other for ever");
  c.fault("load attempt failed", f.fired); c.fault("allocation failure", oom); const void* addr = nullptr; u64 thrown = 0, good = 0;
  for (size_t w = 0; w < ids.size(); w++) { thrown += got[w].thrown; for (auto& [a, s] : got[w].r) { good++; c.note(s); if (!addr) addr = a; c.check(a == addr, "two-stores", "thread " + std::to_string(w) + " was given another store"); c.check(s.empty(), "incomplete-store", "thread " + std::to_string(w) + " was given a store in which certificates are " + s); } }
  if (added) { c.check(!ownLost, "addition-lost", "a certificate added by a thread is gone when the same thread asks for the store again"); c.fault("certificate added while others ask for the store"); }
  c.note(thrown); c.note(good); c.check(thrown <= f.fired + oom, "request-failed", std::to_string(thrown) + " requests failed, but only " + std::to_string(f.fired + oom) + " faults happened"); if (thrown) c.probe("failed request reported", thrown); if (thrown && good) c.probe("request succeeded after others failed"); if (good > 1) c.probe("several threads got the store"); if (f.opens > 1) c.probe("load attempted more than once");
  // faults stop: bounded progress
  if (!good && !swap.k.empty()) { // nobody has the store yet; the administrator installs another bundle: nothing of the old one may be left
    c.fault("bundle replaced between failed and successful request"); if (!names.empty() && swap("keep")) gone = names[0]; roots = later; names = laterNames; rp.clear(); for (auto& x : roots) rp.push_back(&x); f.content = bundleText(rp); }
  attempt.clear(); f.onOpen = nullptr; f.onRead = nullptr; f.openErr = f.statErr = 0; f.faults.clear(); std::string s; Caligo::Truststore* ts = nullptr; try { ts = &Caligo::Truststore::Instance(); } catch (const std::exception& e) { c.fail("no-recovery", "the bundle is readable again, yet the request fails: " + std::string(e.what())); }
  if (addr) c.check(ts == addr, "two-stores", "a later request was given another store"); s = content(*ts); c.check(s.empty(), "incomplete-store", "after recovery certificates are " + s); if (!gone.empty()) c.check(!ts->get(gone), "left-behind", "a certificate of the bundle of a failed request is in the store"); c.probe("recovered");
  if (added) { auto g = ts->get(ownName[0]); c.check(g && (*g)->derCert == own[0].der, "addition-lost", "a certificate added after the first request is gone"); }
  if (names.empty()) c.probe("bundle without certificates");
  { // the bundle changes after the store was loaded; the store stays as it is
    if (on.size() == 1) { f.content = bundleText({&other[0]}); auto& t2 = Caligo::Truststore::Instance(); c.check(&t2 == ts, "two-stores", "after the bundle changed"); c.check(!t2.get(on[0]), "reloaded", "a bundle installed after the store was loaded is in it"); s = content(*ts); c.check(s.empty(), "incomplete-store", "after the bundle changed certificates are " + s); if (added) { auto g = t2.get(ownName[0]); c.check(g && (*g)->derCert == own[0].der, "addition-lost", "a certificate added before the bundle changed is gone"); } c.fault("bundle replaced after the store was loaded"); } }
  f.content = "replaced"; for (auto& op : late) { Op o("cert", {{"name", op("name")}, {"issuer", op("name")}, {"key", 24}, {"nb", off(1500000000)}, {"na", off(1900000000)}, {"ver", 3}, {"serial", 9}}); Bytes der = mint(o).der; auto x = Caligo::parseCertificate(der); std::string nm = x.subject; Caligo::Truststore::Instance().addCertificate(std::move(x)); c.fault("certificate added later");
    for (u64 i = 0; i < op("n") % 10; i++) { auto& t2 = Caligo::Truststore::Instance(); c.check(&t2 == ts, "two-stores", "after an addition"); auto g = t2.get(nm); c.check(g && (*g)->derCert == der, "addition-lost", "a certificate added after the first request is gone"); for (size_t k = 0; k < names.size(); k++) if (names[k] != nm) { auto g2 = t2.get(names[k]); c.check(g2 && (*g2)->derCert == roots[k].der, "incomplete-store", "an addition removed another certificate"); } } }
  f.active = false; if (c.st.faults["sched.preemption"] > 2) c.nontrivial++;
}
static void warm() { for (size_t i = 0; i < oracle::rsaCount(); i++) oracle::rsa(i); }
sim::Scenario sim::scenario{"C02", gen, run, nullptr, warm};
