// Scheduler: the process is a zygote; every path runs in a forked child.
#include "runtime.h"
#include "heap.h"
#include "../include/sym.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <random>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
extern std::unordered_set<void *> gEntered;
static SymHarness *harnesses;
SymHarness::SymHarness(const char *n, void (*f)()) : name(n), fn(f), next(harnesses) { harnesses = this; }

// ------------------------------------------------ child side
static std::string out;
static void pU(u64 v) { out.append((char *)&v, 8); }
static void pS(const std::string &s) { pU(s.size()); out += s; }
static void pV(const std::vector<u64> &v) { pU(v.size()); out.append((char *)v.data(), v.size() * 8); }
static int outFd = -1;
static bool ending = false;
static bool limitHit = false;
struct PipeSink : Sink {
  void job(const Job &j) override { out += 'J'; pU(j.bound); pU(j.hash); pV(j.vals); }
  void violation(const char *k, const char *m, const std::vector<u64> &v) override { out += 'V'; pS(k); pS(m); pV(v); }
} sink;
static std::vector<u64> curVals() { std::vector<u64> v; for (auto &x : vars) v.push_back(x.value); return v; }
[[noreturn]] static void flushExit() {
  size_t o = 0;
  while (o < out.size()) { ssize_t r = write(outFd, out.data() + o, out.size() - o); if (r <= 0) break; o += r; }
  _exit(0);
}
void RtState::endPath(PathEnd pe) {
  ending = true;
  heapActive = false;
  rt.active = false;
  alarm(0);
  double decsBefore = decs.size();
  (void)decsBefore;
  solvePath(job, sink);
  out += 'S';
  pU(pe); pU(decs.size()); pU(decs.size() > job.bound ? decs.size() - job.bound : 0); pU(nodes.size()); pU(asserts);
  pU(sstats.queries); pU(sstats.sat); pU(sstats.unsat); pU(sstats.unknown); pU((u64)(sstats.time * 1e6)); pU(sstats.asserts); pU(sstats.identities); pU(sstats.diverged); pU(sstats.capped); pU(sstats.boundary);
  for (auto &c : covers) { out += 'C'; pS(c); }
  for (auto &c : rt.unsupported) { out += 'U'; pS(c); }
  for (auto *f : externals) { out += 'X'; pU((u64)f); }
  for (auto *f : extmem) { out += 'M'; pU((u64)f); }
  for (auto *f : gEntered) { out += 'F'; pU((u64)f); }
  if (pe == PE_DONE) { out += 'D'; pV(curVals()); std::string n; for (auto &v : vars) n += v.name + ","; pS(n); }
  flushExit();
}
void RtState::fail(const char *kind, const char *msg) {
  if (!rt.active) flushExit();
  sink.violation(kind, msg, curVals());
  endPath(PE_FAIL);
}
static void onSig(int s) {
  if (ending) { out += 'L'; flushExit(); }
  char b[64]; snprintf(b, 64, "signal %d (%s)", s, strsignal(s));
  if (s == SIGALRM) rt.fail("hang", "path exceeded its time limit");
  sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, nullptr);
  rt.fail("crash", b);
}
static unsigned pathSecs = 30;
static void child(SymHarness *h, const Job &j, int fd) {
  outFd = fd;
  rt.job = j;
  static char alt[1 << 20];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
  alarm(pathSecs);
  resetExprs();
  rt.active = true; heapActive = true;
  std::string what;
  try { h->fn(); }
  catch (const std::exception &e) { what = std::string("uncaught exception: ") + e.what(); rt.fail("exception", what.c_str()); }
  catch (...) { rt.fail("exception", "uncaught exception"); }
  rt.endPath(PE_DONE);
}
// ------------------------------------------------ parent side
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
struct Viol { std::string kind, msg; std::vector<u64> vals; };
int main(int argc, char **argv) {
  const char *name = nullptr, *outf = nullptr;
  int par = 8; double limit = 1e9; u64 maxPaths = ~0ULL; bool verbose = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--list") { for (auto *h = harnesses; h; h = h->next) printf("%s\n", h->name); fflush(stdout); _exit(0); }
    else if (a == "--tier") rt.tier = atoi(argv[++i]);
    else if (a == "--jobs") par = atoi(argv[++i]);
    else if (a == "--time") limit = atof(argv[++i]);
    else if (a == "--paths") maxPaths = strtoull(argv[++i], nullptr, 10);
    else if (a == "--out") outf = argv[++i];
    else if (a == "--qt") gQueryTimeout = atoi(argv[++i]);
    else if (a == "--pathsecs") pathSecs = atoi(argv[++i]);
    else if (a == "--maxdecs") rt.maxDecs = atoi(argv[++i]);
    else if (a == "-v") verbose = true;
    else name = argv[i];
  }
  SymHarness *h = harnesses;
  while (h && (!name || strcmp(h->name, name))) h = h->next;
  if (!h) { fprintf(stderr, "no harness %s\n", name ? name : "?"); return 2; }
  struct rlimit rl{1ULL << 30, 1ULL << 30}; (void)rl;
  solverInit();
  std::vector<Job> q(1);
  struct Kid { pid_t pid; int fd; std::string buf; Job job; };
  std::vector<Kid> kids;
  u64 paths = 0, lost = 0, limits = 0, assumeEnds = 0, st[16] = {0}, maxDec = 0, maxNodes = 0, violTotal = 0, done = 0;
  std::map<std::string, u64> covers, unsup; std::map<u64, u64> ext, extm, fns;
  std::vector<Viol> viols; std::map<std::string, int> violCount;
  std::vector<std::vector<u64>> samples; std::string sampleNames;
  std::mt19937_64 rng(1);
  double t0 = now(), tlast = t0;
  bool stopped = false;
  while (!q.empty() || !kids.empty()) {
    bool over = now() - t0 > limit || paths >= maxPaths;
    if (over && !q.empty()) stopped = true;
    if (over && kids.empty()) break;
    while (!over && (int)kids.size() < par && !q.empty()) {
      if (q.size() > 1) std::swap(q.back(), q[rng() % q.size()]);
      Job j = std::move(q.back()); q.pop_back();
      int fd[2];
      if (pipe(fd)) abort();
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) { close(fd[0]); for (auto &k : kids) close(k.fd); child(h, j, fd[1]); }
      close(fd[1]);
      fcntl(fd[0], F_SETFL, O_NONBLOCK);
      kids.push_back({p, fd[0], "", std::move(j)});
      ++paths;
      if (paths >= maxPaths) break;
    }
    std::vector<pollfd> pf;
    for (auto &k : kids) pf.push_back({k.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 1000);
    if (over && now() - t0 > limit + 20) for (auto &k : kids) kill(k.pid, SIGKILL);
    if (verbose && now() - tlast > 5) { tlast = now(); fprintf(stderr, "[%s] paths %lu queue %zu viol %lu %.0fs\n", h->name, paths, q.size(), violTotal, now() - t0); }
    for (size_t i = 0; i < kids.size();) {
      auto &k = kids[i];
      char b[65536]; ssize_t r; bool eof = false;
      while ((r = read(k.fd, b, sizeof b)) > 0) k.buf.append(b, r);
      if (r == 0) eof = true;
      if (!eof) { ++i; continue; }
      close(k.fd);
      int ws; waitpid(k.pid, &ws, 0);
      if (!WIFEXITED(ws) || WEXITSTATUS(ws) != 0) { ++lost; if (verbose) fprintf(stderr, "lost child: status %x\n", ws); }
      const char *c = k.buf.data(), *e = c + k.buf.size();
      auto gU = [&] { u64 v = 0; if (c + 8 <= e) memcpy(&v, c, 8); c += 8; return v; };
      auto gS = [&] { u64 n = gU(); std::string s(c, std::min<u64>(n, e > c ? e - c : 0)); c += n; return s; };
      auto gV = [&] { u64 n = gU(); std::vector<u64> v; for (u64 x = 0; x < n && c < e; ++x) v.push_back(gU()); return v; };
      bool gotS = false;
      while (c < e) {
        char t = *c++;
        if (t == 'J') { Job j; j.bound = gU(); j.hash = gU(); j.vals = gV(); q.push_back(std::move(j)); }
        else if (t == 'V') { Viol v; v.kind = gS(); v.msg = gS(); v.vals = gV(); ++violTotal; if (violCount[v.kind + v.msg]++ < 5) viols.push_back(v); }
        else if (t == 'S') {
          gotS = true;
          u64 pe = gU(), d = gU(), nd = gU(), nn = gU(), as = gU();
          maxDec = std::max(maxDec, d); maxNodes = std::max(maxNodes, nn);
          st[10] += nd; st[11] += as; st[12] += nn;
          for (int x = 0; x < 10; ++x) st[x] += gU();
          if (pe == PE_LIMIT) ++limits;
          if (pe == PE_ASSUME) ++assumeEnds;
          if (pe == PE_DONE) ++done;
        } else if (t == 'C') covers[gS()]++;
        else if (t == 'U') unsup[gS()]++;
        else if (t == 'X') ext[gU()]++;
        else if (t == 'M') extm[gU()]++;
        else if (t == 'F') fns[gU()]++;
        else if (t == 'L') ++lost;
        else if (t == 'D') { auto v = gV(); auto n = gS(); if (samples.size() < 16) { samples.push_back(v); sampleNames = n; } else if (rng() % done < 16) samples[rng() % 16] = v; }
        else { fprintf(stderr, "bad message\n"); ++lost; break; }
      }
      if (!gotS) ++lost;
      kids.erase(kids.begin() + i);
    }
  }
  bool exhausted = !stopped && q.empty() && !lost && !limits && !st[3] && !st[7] && !st[8];
  FILE *f = outf ? fopen(outf, "w") : stdout;
  fprintf(f, "{\"harness\":%s,\"tier\":%d,\"exhausted\":%s,\"paths\":%lu,\"completed\":%lu,\"assume_ended\":%lu,\"queue_left\":%zu,\"lost\":%lu,\"limit_paths\":%lu,", js(h->name).c_str(), rt.tier, exhausted ? "true" : "false", paths, done, assumeEnds, q.size(), lost, limits);
  fprintf(f, "\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_s\":%.3f,\"assert_queries\":%lu,\"identities\":%lu,\"diverged\":%lu,\"capped\":%lu,\"decisions\":%lu,\"assert_sites\":%lu,\"nodes\":%lu,\"max_decisions\":%lu,\"max_nodes\":%lu,\"boundary\":%lu,\"wall_s\":%.2f,\n",
          st[0], st[1], st[2], st[3], st[4] / 1e6, st[5], st[6], st[7], st[8], st[10], st[11], st[12], maxDec, maxNodes, st[9], now() - t0);
  auto dm = [&](const char *k, std::map<std::string, u64> &m) { fprintf(f, "\"%s\":{", k); bool first = true; for (auto &[a, b] : m) { fprintf(f, "%s%s:%lu", first ? "" : ",", js(a).c_str(), b); first = false; } fprintf(f, "},\n"); };
  dm("covers", covers); dm("unsupported", unsup);
  auto da = [&](const char *k, std::map<u64, u64> &m) { fprintf(f, "\"%s\":[", k); bool first = true; for (auto &[a, b] : m) { fprintf(f, "%s\"%lx\"", first ? "" : ",", a); first = false; } fprintf(f, "],\n"); };
  da("externals", ext); da("extmem", extm); da("functions", fns);
  auto dv = [&](const std::vector<u64> &v) { fprintf(f, "["); for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s%lu", i ? "," : "", v[i]); fprintf(f, "]"); };
  fprintf(f, "\"sample_names\":%s,\"samples\":[", js(sampleNames).c_str());
  for (size_t i = 0; i < samples.size(); ++i) { if (i) fprintf(f, ","); dv(samples[i]); }
  fprintf(f, "],\n\"violations_total\":%lu,\"violations\":[", violTotal);
  for (size_t i = 0; i < viols.size(); ++i) { fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"vals\":", i ? "," : "", js(viols[i].kind).c_str(), js(viols[i].msg).c_str()); dv(viols[i].vals); fprintf(f, "}"); }
  fprintf(f, "]}\n");
  if (outf) fclose(f);
  fflush(f == stdout ? stdout : nullptr);
  _exit(violTotal ? 1 : 0);
}
