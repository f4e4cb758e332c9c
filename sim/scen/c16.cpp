// C16: base64 text passing through relays that re-wrap it.
#include "sim.h"
#include "oracle.h"
#include <caligo/base64.h>
using namespace sim;
static const char* LAST[] = {"+/", "+,", "-_"}; static const Caligo::Base64CharSet CS[] = {Caligo::PlusSlash, Caligo::PlusComma, Caligo::MinusUnderscore};
static void gen(Rng& r, Plan& p, const Tier&) {
  u64 msgs = r.range(1, 3);
  for (u64 m = 0; m < msgs; m++) {
    u64 len; switch (r.below(6)) { case 0: len = r.below(8); break; case 1: len = 57 * r.range(1, 6) - 2 + r.below(5); break; case 2: len = r.below(200); break; case 3: len = 19 * r.range(1, 12); break; case 4: len = r.chance(1, 6) ? r.below(200000) : r.below(2000); break; default: len = r.below(60); }
    p.push_back(Op("send", {{"data", dataSeed(r)}, {"len", len}, {"nl", r.below(2)}, {"omit", r.below(2)}, {"cs", r.below(3)}}));
    u64 hops = r.below(7);
    for (u64 i = 0; i < hops; i++) switch (r.below(10)) {
      case 9: p.push_back(Op("soft", {{"w", r.range(1, 100)}})); break;
      case 0: p.push_back(Op("unwrap")); break;
      case 1: p.push_back(Op("wrap", {{"w", r.range(1, 100)}, {"crlf", r.below(2)}})); break;
      case 2: p.push_back(Op("crlf")); break;
      case 3: p.push_back(Op("noise", {{"seed", r.next() >> 20}, {"n", r.range(1, 20)}, {"eq", r.chance(1, 3)}})); break;
      case 4: p.push_back(Op("strip", {{"n", r.range(1, 2)}})); break;
      case 5: p.push_back(Op("alphabet", {{"cs", r.below(3)}})); break;
      case 6: p.push_back(Op("mixed", {{"seed", r.next() >> 20}})); break;
      case 7: p.push_back(Op("reencode", {{"nl", r.below(2)}, {"omit", r.below(2)}, {"cs", r.below(3)}})); break;
      default: p.push_back(Op("indent", {{"n", r.range(1, 8)}})); }
    if (r.chance(1, 4)) p.push_back(Op("cut", {{"at", r.next() >> 20}}));
    p.push_back(Op("recv"));
  }
}
static std::vector<Plan> fixed(const Tier& t) {
  std::vector<Plan> v; u64 top = t.thorough ? 1200 : 240; // every length, every option, then every truncation of short texts
  for (u64 n = 0; n < top; n++) { Plan p; for (u64 o = 0; o < 12; o++) { p.push_back(Op("send", {{"data", 5 + n}, {"len", n}, {"nl", o & 1}, {"omit", o >> 1 & 1}, {"cs", o >> 2}})); p.push_back(Op("recv")); } v.push_back(p); }
  for (u64 n = 0; n < 90; n++) { Plan p; for (u64 at = 0; at < 130; at++) { p.push_back(Op("send", {{"data", 21 + n}, {"len", n}, {"nl", n & 1}, {"omit", n >> 1 & 1}, {"cs", n % 3}})); p.push_back(Op("cut", {{"at", at}})); p.push_back(Op("recv")); } v.push_back(p); }
  { Plan p; for (u64 b = 0; b < 256; b++) { p.push_back(Op("send", {{"data", 7}, {"len", 50}, {"nl", 0}, {"omit", 0}, {"cs", b % 3}})); p.push_back(Op("put", {{"b", b}, {"at", b * 7}})); p.push_back(Op("recv")); } v.push_back(p); }
  for (u64 d : {5, 16, 7, 12}) v.push_back({Op("send", {{"data", d}, {"len", 2500000}, {"nl", d & 1}, {"omit", 0}, {"cs", d % 3}}), Op("recv")});  // text beyond 2^21 characters
  return v;
}
static bool outside(u8 b) { return !(isalnum(b) && b < 128) && b != '+' && b != '/' && b != ',' && b != '-' && b != '_' && b != '='; }
static int cls(char b) { return b == '+' || b == '-' ? 1 : b == '/' || b == ',' || b == '_' ? 2 : 0; }
static std::string enc(Ctx& c, std::span<const u8> d, bool nl, bool omit, u64 cs) {
  Given in(d); std::string s = Caligo::base64(in, nl, omit, CS[cs]), flat; in.ok(); size_t line = 0, longest = 0; for (char x : s) if (x == '\n') { longest = std::max(longest, line); line = 0; } else { flat += x; line++; } longest = std::max(longest, line);
  std::string what = std::to_string(d.size()) + " bytes"; c.check(flat == oracle::base64(d, !omit, LAST[cs]), "encoding-wrong", what);
  if (nl) c.check(longest <= 76, "line-too-long", what + ": a line of " + std::to_string(longest)); else c.check(flat == s, "line-break-unasked", what); return s; }
static Bytes dec(const std::string& s) { Given in({(const u8*)s.data(), s.size()}); Bytes o = Caligo::base64d(std::string_view((const char*)in.p, in.n)); in.ok(); return o; }
static void run(const Plan& plan, Ctx& c) {
  Bytes orig; std::string t; bool have = false, cut = false; u64 hop = 0;
  for (auto& op : plan) { c.step(); u64 k = 0; for (char q : op.k) k = k * 31 + q; c.shp(k * 977 + op("cs") * 3 + op("n") * 7 + op("w") * 31 + std::min<u64>(op("len"), 120));
    if (op.k == "send") { orig = data(op("data"), op("len")); t = enc(c, orig, op("nl"), op("omit"), op("cs") % 3); have = true; cut = false; hop = 0; continue; }
    if (!have) continue; hop++;
    if (op.k == "unwrap") { std::string o; for (char x : t) if (x != '\n' && x != '\r') o += x; t = o; c.fault("line breaks removed"); }
    else if (op.k == "wrap") { std::string o; size_t w = op("w", 1), n = 0; for (char x : t) { if (x == '\n' || x == '\r') continue; o += x; if (++n % std::max<size_t>(w, 1) == 0) o += op("crlf") ? "\r\n" : "\n"; } t = o; c.fault("re-wrapped"); }
    else if (op.k == "soft") { std::string o; size_t w = std::max<size_t>(op("w", 1), 1), n = 0; for (char x : t) { if (x == '\n' || x == '\r') continue; o += x; if (++n % w == 0) o += "=\r\n"; } t = o; c.fault("quoted-printable soft line breaks inserted"); }
    else if (op.k == "crlf") { std::string o; for (char x : t) { if (x == '\n') o += '\r'; o += x; } t = o; c.fault("line endings converted"); }
    else if (op.k == "indent") { std::string o(op("n"), ' '); for (char x : t) { o += x; if (x == '\n') o += std::string(op("n") % 100, op("n") & 1 ? ' ' : '\t'); } t = o; c.fault("indented"); }
    else if (op.k == "noise") { Rng r(op("seed")); for (u64 i = 0; i < op("n") % 1000; i++) { u8 b; do b = (u8)r.next(); while (!outside(b)); if (op("eq") && r.chance(1, 3)) b = '='; t.insert(t.begin() + r.below(t.size() + 1), (char)b); } c.fault("foreign characters inserted", op("n")); }
    else if (op.k == "put") { if (outside((u8)op("b")) || op("b") == '=') t.insert(t.begin() + op("at") % (t.size() + 1), (char)op("b")), c.fault("foreign characters inserted"); }
    else if (op.k == "strip") { for (u64 i = 0; i < op("n") % 3; i++) { auto at = t.rfind('='); if (at != std::string::npos) t.erase(at, 1), c.fault("padding stripped"); } }
    else if (op.k == "alphabet") { for (char& x : t) if (int k = cls(x)) x = LAST[op("cs") % 3][k - 1]; c.fault("alphabet switched"); }
    else if (op.k == "mixed") { Rng r(op("seed")); for (char& x : t) if (int k = cls(x)) x = LAST[r.below(3)][k - 1]; c.fault("alphabets mixed"); }
    else if (op.k == "cut") { t.resize(op("at") % (t.size() + 1)); cut = true; c.fault("text cut off"); }
    else if (op.k == "reencode" && !cut) { Bytes d = dec(t); c.check(d == orig, "relay-decoded-wrong", "at a relay after " + std::to_string(hop) + " hops: " + firstDiff(d, orig)); t = enc(c, d, op("nl"), op("omit"), op("cs") % 3); c.fault("decoded and encoded again"); }
    else if (op.k == "recv") { Bytes d = dec(t); c.note(d); if (!cut) c.check(d == orig, "decoded-wrong", firstDiff(d, orig)); else c.check(d.size() <= orig.size() && std::equal(d.begin(), d.end(), orig.begin()), "not-a-prefix", "text cut after " + std::to_string(t.size()) + " characters decodes to " + std::to_string(d.size()) + " bytes that are not a prefix of the original " + std::to_string(orig.size())); have = false; c.probe("messages received"); }
  }
}
sim::Scenario sim::scenario{"C16", gen, run, fixed};
