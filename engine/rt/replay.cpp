// Replay runtime: same API, plain build of the real sources, concrete values.
#include "../include/sym.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <exception>
#include <string>
#include <unistd.h>
#include <vector>
using u64 = std::uint64_t;
static SymHarness *harnesses;
SymHarness::SymHarness(const char *n, void (*f)()) : name(n), fn(f), next(harnesses) { harnesses = this; }
static std::vector<u64> vals;
static size_t pos;
static int tier;
static u64 nxt(u64 d) { return pos < vals.size() ? vals[pos++] : (pos++, d); }
static void show(const char *n, u64 v) { printf("  input %s = %llu\n", n, (unsigned long long)v); }
template <class T> static T g(const char *n) { T v = (T)nxt(0); show(n, (u64)v); return v; }
extern "C" {
std::uint8_t sym_u8(const char *n) { return g<std::uint8_t>(n); }
std::uint16_t sym_u16(const char *n) { return g<std::uint16_t>(n); }
std::uint32_t sym_u32(const char *n) { return g<std::uint32_t>(n); }
std::uint64_t sym_u64(const char *n) { return g<std::uint64_t>(n); }
std::int32_t sym_i32(const char *n) { return g<std::int32_t>(n); }
std::int64_t sym_i64(const char *n) { return g<std::int64_t>(n); }
std::uint64_t sym_range(const char *n, std::uint64_t lo, std::uint64_t hi) {
  if (lo == hi) return lo;
  u64 v = lo + nxt(0);
  show(n, v);
  if (v > hi) { printf("REPLAY assume\n"); fflush(stdout); _exit(3); }
  return v;
}
std::int64_t sym_srange(const char *n, std::int64_t lo, std::int64_t hi) { return (std::int64_t)(sym_range(n, 0, (u64)hi - (u64)lo) + (u64)lo); }
bool sym_bool(const char *n) { return g<u64>(n) & 1; }
static double dbl(const char *n, double d) { u64 b; std::memcpy(&b, &d, 8); b = nxt(b); std::memcpy(&d, &b, 8); printf("  input %s = %.17g\n", n, d); return d; }
double sym_double(const char *n) { return dbl(n, 0); }
double sym_real(const char *n, double lo, double hi) { double m = lo <= 0.3718 && hi >= 0.3718 ? 0.3718 : lo + (hi - lo) * 0.37; return dbl(n, m); }
void sym_assume(bool c) { if (!c) { printf("REPLAY assume\n"); fflush(stdout); _exit(3); } }
void sym_assert(bool c, const char *m) { if (!c) { printf("REPLAY violation assert: %s\n", m); fflush(stdout); _exit(1); } }
void sym_assert_near(double a, double b, double tol, const char *m) { if (!(std::fabs(a - b) <= tol)) { printf("REPLAY violation assert: %s (%.17g vs %.17g)\n", m, a, b); fflush(stdout); _exit(1); } }
void sym_cover(const char *) {}
void sym_note(const char *k, std::uint64_t v) { printf("  note %s = %llu\n", k, (unsigned long long)v); }
int sym_tier(void) { return tier; }
void sym_real_mode(void) {}
void sym_split_ints(void) {}
std::uint64_t sym_pin(std::uint64_t v) { return v; }
int sym_is_replay(void) { return 1; }
}
int main(int argc, char **argv) {
  const char *name = nullptr, *file = nullptr;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--tier") tier = atoi(argv[++i]);
    else if (a == "--list") { for (auto *h = harnesses; h; h = h->next) printf("%s\n", h->name); return 0; }
    else if (!name) name = argv[i];
    else file = argv[i];
  }
  SymHarness *h = harnesses;
  while (h && (!name || strcmp(h->name, name))) h = h->next;
  if (!h) { fprintf(stderr, "no harness\n"); return 2; }
  if (file) {
    FILE *f = fopen(file, "r");
    if (!f) return 2;
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1) vals.push_back(v);
    fclose(f);
  }
  alarm(60);
  printf("harness %s\n", name);
  setvbuf(stdout, nullptr, _IOLBF, 1 << 12);
  try { h->fn(); }
  catch (const std::exception &e) { printf("REPLAY violation exception: uncaught exception: %s\n", e.what()); fflush(stdout); _exit(1); }
  catch (...) { printf("REPLAY violation exception: uncaught exception\n"); fflush(stdout); _exit(1); }
  printf("REPLAY ok\n");
  fflush(stdout);
  _exit(0);
}
