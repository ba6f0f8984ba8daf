// Harness API.  The same harness source is compiled twice: instrumented against
// the symbolic runtime, and plainly against the replay runtime.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <exception>
extern "C" {
// fresh symbolic values (unconstrained / inclusive ranges)
std::uint8_t sym_u8(const char *name);
std::uint16_t sym_u16(const char *name);
std::uint32_t sym_u32(const char *name);
std::uint64_t sym_u64(const char *name);
std::int32_t sym_i32(const char *name);
std::int64_t sym_i64(const char *name);
std::uint64_t sym_range(const char *name, std::uint64_t lo, std::uint64_t hi);
std::int64_t sym_srange(const char *name, std::int64_t lo, std::int64_t hi);
bool sym_bool(const char *name);
double sym_double(const char *name);                       // any IEEE double
double sym_real(const char *name, double lo, double hi);   // lo <= x <= hi
void sym_assume(bool c);
void sym_assert(bool c, const char *msg);
void sym_cover(const char *id);       // reachability witness
void sym_note(const char *key, std::uint64_t v); // free-form trace line in replays
// real mode: |a-b| <= tol ; decided over polynomials where possible
void sym_assert_near(double a, double b, double tol, const char *msg);
int sym_tier(void);                   // 0 quick, 1 thorough
void sym_real_mode(void);             // doubles are reals from here on (harness start)
void sym_split_ints(void);            // fork over the integer values of reals converted to integers; constants are taken as exact rationals (linear arithmetic)
std::uint64_t sym_pin(std::uint64_t v); // concretise (fork over the values)
int sym_is_replay(void);
}
// non-short-circuit helpers (do not fork)
static inline bool s_and(bool a, bool b) { return (bool)((unsigned)a & (unsigned)b); }
static inline bool s_or(bool a, bool b) { return (bool)((unsigned)a | (unsigned)b); }
static inline std::uint64_t s_ite(bool c, std::uint64_t a, std::uint64_t b) {
  std::uint64_t m = 0ULL - (std::uint64_t)c;
  return (a & m) | (b & ~m);
}
struct SymHarness {
  const char *name;
  void (*fn)();
  SymHarness *next;
  SymHarness(const char *n, void (*f)());
};
#define HARNESS(n) static void harness_##n(); static SymHarness reg_##n(#n, &harness_##n); static void harness_##n()
