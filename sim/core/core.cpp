#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/ioctl.h>
#include <poll.h>

namespace sim {

Bytes data(u64 seed, size_t n) {
  Bytes b(n);
  switch (seed & 15) {
    case 0: break;                                               // zeroes
    case 1: memset(b.data(), 0xFF, n); break;
    case 2: for (size_t i = 0; i < n; i++) b[i] = (u8)i; break;
    case 3: { Rng r(seed); for (auto& c : b) c = "abcdefgh ACGT\n"[r.below(14)]; break; }
    case 4: { Rng r(seed); u8 c = r.next(); for (auto& x : b) x = c; break; }
    default: { Rng r(seed); size_t i = 0; for (; i + 8 <= n; i += 8) { u64 v = r.next(); memcpy(&b[i], &v, 8); }
      if (i < n) { u64 v = r.next(); memcpy(&b[i], &v, n - i); } }
  }
  return b;
}
bool parseOp(const std::string& line, Op& op) {
  std::istringstream is(line); std::string tok; op = Op();
  if (!(is >> op.k) || op.k[0] == '#') return false;
  while (is >> tok) { auto e = tok.find('='); if (e == std::string::npos) continue;
    op.a.push_back({tok.substr(0, e), strtoull(tok.c_str() + e + 1, nullptr, 10)}); }
  return true;
}
std::string hex(std::span<const u8> b, size_t max) {
  static const char* h = "0123456789abcdef"; std::string s;
  for (size_t i = 0; i < b.size() && i < max; i++) { s += h[b[i] >> 4]; s += h[b[i] & 15]; }
  if (b.size() > max) s += "..(" + std::to_string(b.size()) + ")";
  return s;
}
std::string firstDiff(std::span<const u8> a, std::span<const u8> b) {
  if (a.size() != b.size()) return "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size());
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i])
    return "first difference at byte " + std::to_string(i) + " of " + std::to_string(a.size()) + ": " + hex(a.subspan(i, std::min<size_t>(8, a.size() - i))) + " vs " + hex(b.subspan(i, std::min<size_t>(8, a.size() - i)));
  return "equal";
}

static bool ended(int st, std::string& how) {
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
  if (WIFSIGNALED(st)) how = WTERMSIG(st) == SIGPROF ? "hang" : "signal-" + std::to_string(WTERMSIG(st));
  else how = WEXITSTATUS(st) == 77 ? "memory-error" : "exit-" + std::to_string(WEXITSTATUS(st));
  return false;
}
static void cpuLimit(unsigned seconds) { struct itimerval it{}; it.it_value.tv_sec = seconds; setitimer(ITIMER_PROF, &it, nullptr); }
static void writeAll(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = ::write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } }
bool inChild(const std::function<std::string()>& f, std::string& out, std::string& how, unsigned cpuSeconds) {
  int p[2]; if (pipe(p)) { how = "pipe"; return false; }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    cpuLimit(cpuSeconds); writeAll(p[1], f());
    _exit(0);
  }
  close(p[1]); out.clear(); char buf[65536];
  for (;;) { ssize_t n = ::read(p[0], buf, sizeof buf); if (n < 0 && errno == EINTR) continue; if (n <= 0) break; out.append(buf, n); }
  close(p[0]); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return ended(st, how);
}
} // namespace sim

using namespace sim;

static std::string esc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
// result of one run, (de)serialised when the run happens in a child
struct Result { bool viol = false; std::string cls, msg; Ctx ctx; };
static std::string ser(const Result& r) {
  std::ostringstream o;
  o << "h " << r.ctx.h << " " << r.ctx.shape << " " << r.ctx.nontrivial << " " << r.ctx.st.simtime << " " << r.ctx.st.steps << "\n";
  for (auto& [k, v] : r.ctx.st.faults) o << "f " << v << " " << k << "\n";
  for (auto& [k, v] : r.ctx.st.probes) o << "p " << v << " " << k << "\n";
  for (auto& s : r.ctx.sched) o << "s " << s << "\n";
  for (auto& s : r.ctx.known) o << "k " << s << "\n";
  if (r.viol) { std::string m = r.msg; for (auto& c : m) if (c == '\n') c = ' '; o << "v " << r.cls << " " << m << "\n"; }
  return o.str();
}
static void deser(const std::string& s, Result& r) {
  std::istringstream is(s); std::string l;
  while (std::getline(is, l)) {
    if (l.size() < 2) continue;
    std::istringstream q(l.substr(2)); u64 v; std::string k;
    switch (l[0]) {
      case 'h': q >> r.ctx.h >> r.ctx.shape >> r.ctx.nontrivial >> r.ctx.st.simtime >> r.ctx.st.steps; break;
      case 'f': q >> v; std::getline(q >> std::ws, k); r.ctx.st.faults[k] = v; break;
      case 'p': q >> v; std::getline(q >> std::ws, k); r.ctx.st.probes[k] = v; break;
      case 's': r.ctx.sched.push_back(l.substr(2)); break;
      case 'k': r.ctx.known.push_back(l.substr(2)); break;
      case 'v': r.viol = true; q >> r.cls; std::getline(q >> std::ws, r.msg); break;
    }
  }
}
static void runDirect(const Plan& p, Result& r) {
  try { scenario.run(p, r.ctx); }
  catch (const Violation& v) { alloc::disarm(); r.viol = true; r.cls = v.cls; r.msg = v.msg; }
  catch (const std::exception& e) { alloc::disarm(); r.viol = true; r.cls = "unexpected-exception"; r.msg = e.what(); }
}
static Plan planFor(u64 seed, u64 index, bool thorough) {
  Tier t{thorough, index};
  if (scenario.fixed) { auto f = scenario.fixed(t); if (index < f.size()) return f[index]; }
  Rng r(mix(seed, index + 1)); Plan p; scenario.gen(r, p, t); return p;
}
static unsigned cpuPerRun = 60;
static void runPlan(const Plan& p, Result& r) {
  // every run starts from the same process state: a fork of a process that has never called the library
  std::string out, how;
  bool ok = inChild([&] { Result c; runDirect(p, c); return ser(c); }, out, how, cpuPerRun);
  if (ok) deser(out, r); else { r.viol = true; r.cls = "crash:" + how; r.msg = "the run ended with " + how; }
}
// Exploration: runs are forked from a process that does nothing else, so that a run is the same (down to the addresses of what it
// allocates) whatever this worker did before.
struct Nursery {
  int cmd[2], res[2], st[2]; pid_t pid = 0;
  void start(u64 seed, bool thorough) {
    if (pipe(cmd) || pipe(res) || pipe(st)) _exit(2);
    if ((pid = fork())) { close(cmd[0]); close(res[1]); close(st[1]); return; }
    prctl(PR_SET_PDEATHSIG, SIGKILL); close(cmd[1]); close(res[0]); close(st[0]); u64 index;
    while (::read(cmd[0], &index, sizeof index) == sizeof index) {
      pid_t run = fork(); int s = 0;
      if (run == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(cmd[0]); close(st[1]); cpuLimit(cpuPerRun); Plan p = planFor(seed, index, thorough); Result c; runDirect(p, c); writeAll(res[1], ser(c)); _exit(0); }
      while (waitpid(run, &s, 0) < 0 && errno == EINTR) {}
      if (::write(st[1], &s, sizeof s) != sizeof s) break;
    }
    _exit(0);
  }
  void run(u64 index, Result& r) {
    std::string out, how; int s = -1; char buf[65536]; if (::write(cmd[1], &index, sizeof index) != sizeof index) _exit(2);
    for (bool done = false; !done;) {
      struct pollfd p[2] = {{res[0], POLLIN, 0}, {st[0], POLLIN, 0}}; if (poll(p, 2, -1) < 0) continue;
      if (p[1].revents) { if (::read(st[0], &s, sizeof s) != sizeof s) _exit(2); done = true; }
      int avail = 0; while (!ioctl(res[0], FIONREAD, &avail) && avail > 0) { ssize_t n = ::read(res[0], buf, sizeof buf); if (n > 0) out.append(buf, n); }
    }
    if (ended(s, how)) deser(out, r); else { r.viol = true; r.cls = "crash:" + how; r.msg = "the run ended with " + how; }
  }
};
static std::string planText(const Plan& p, const std::vector<std::string>& sched) {
  std::string s; for (auto& o : p) { if (!sched.empty() && o.k == "sched") continue; s += o.text() + "\n"; }
  for (auto& l : sched) s += l + "\n";
  return s;
}
static Plan readPlan(const char* f) {
  Plan p; std::ifstream in(f); std::string l; Op o; while (std::getline(in, l)) if (parseOp(l, o)) p.push_back(o); return p;
}

int main(int argc, char** argv) {
  // same addresses in every process: nothing may depend on address space randomisation
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  struct rlimit rl{6ULL << 30, 6ULL << 30}; if (strcmp(SIM_VARIANT, "asan")) setrlimit(RLIMIT_AS, &rl);
  rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, u64 d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
  u64 seed = num("--seed", 1); bool th = a["--tier"] == "thorough";
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::set<std::string> known; { std::istringstream is(a["--known"]); std::string s; while (std::getline(is, s, ',')) if (!s.empty()) known.insert(s); }
  // library diagnostics (printf in the certificate parser) must not mix with our protocol: keep a private descriptor
  FILE* out = fdopen(dup(1), "w"); setvbuf(out, nullptr, _IOLBF, 0);
  if (!freopen("/dev/null", "w", stdout)) return 2;
  if (mode == "gen") { fputs(planText(planFor(seed, num("--index", 0), th), {}).c_str(), out); fclose(out); return 0; }
  if (mode == "count-fixed") { Tier t{th, 0}; fprintf(out, "%zu\n", scenario.fixed ? scenario.fixed(t).size() : 0); fclose(out); return 0; }
  cpuPerRun = num("--cpu", 60); if (scenario.warm) scenario.warm();
  if (mode == "replay") {
    Plan p = readPlan(a["--plan"].c_str()); Result r; runPlan(p, r);
    fprintf(out, "RESULT {\"violation\":%s,\"cls\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"known\":[", r.viol ? "true" : "false", esc(r.cls).c_str(), esc(r.msg).c_str(), (unsigned long long)r.ctx.h);
    bool f = true; for (auto& k : r.ctx.known) { fprintf(out, "%s\"%s\"", f ? "" : ",", esc(k).c_str()); f = false; }
    fprintf(out, "]}\n"); fflush(out); return r.viol ? 3 : 0;
  }
  if (mode != "explore") return 2;
  u64 first = num("--first", 0), stride = num("--stride", 1), count = num("--count", 1); double wall = num("--wall", 600);
  bool hashes = a.count("--hashes"); Nursery nursery; nursery.start(seed, th);
  Stats total; std::set<u64> shapes, allhash; u64 runs = 0, nontriv = 0; std::map<std::string, u64> knownSeen; std::map<std::string, std::string> knownPlan;
  timeval t0, t1; gettimeofday(&t0, nullptr); std::string sample; u64 simtime = 0; bool capped = false;
  for (u64 i = first; i < count; i += stride) {
    gettimeofday(&t1, nullptr); if ((t1.tv_sec - t0.tv_sec) + (t1.tv_usec - t0.tv_usec) / 1e6 > wall) { capped = true; break; }
    fprintf(out, "AT %llu\n", (unsigned long long)i);
    Plan p = planFor(seed, i, th); Result r; nursery.run(i, r);
    runs++; if (hashes) fprintf(out, "HASH %llu %016llx\n", (unsigned long long)i, (unsigned long long)r.ctx.h);
    for (auto& [k, v] : r.ctx.st.faults) total.faults[k] += v;
    for (auto& [k, v] : r.ctx.st.probes) total.probes[k] += v;
    total.steps += r.ctx.st.steps; simtime += r.ctx.st.simtime;
    if (r.ctx.nontrivial) { nontriv++; shapes.insert(r.ctx.shape); }
    for (auto& k : r.ctx.known) { knownSeen[k]++; if (!knownPlan.count(k)) knownPlan[k] = planText(p, r.ctx.sched); }
    if (sample.empty() && r.ctx.nontrivial && i >= first + stride) sample = planText(p, r.ctx.sched);
    if (r.viol) {
      if (known.count(r.cls)) { knownSeen[r.cls]++; continue; }
      fprintf(out, "VIOL {\"index\":%llu,\"cls\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"plan\":\"%s\"}\n", (unsigned long long)i, esc(r.cls).c_str(), esc(r.msg).c_str(), (unsigned long long)r.ctx.h, esc(planText(p, r.ctx.sched)).c_str());
      break;
    }
  }
  auto js = [&](const std::map<std::string, u64>& m) { std::string s = "{"; for (auto& [k, v] : m) { if (s.size() > 1) s += ","; s += "\"" + esc(k) + "\":" + std::to_string(v); } return s + "}"; };
  std::string sh; for (u64 v : shapes) { char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)v); sh += b; }
  fprintf(out, "DONE {\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"simtime\":%llu,\"faults\":%s,\"probes\":%s,\"known\":%s,\"capped\":%s,\"sample\":\"%s\",\"shapes\":\"%s\"}\n",
    (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)total.steps, (unsigned long long)simtime, js(total.faults).c_str(), js(total.probes).c_str(), js(knownSeen).c_str(), capped ? "true" : "false", esc(sample.substr(0, 4000)).c_str(), sh.c_str());
  fflush(out); _exit(0);
}
