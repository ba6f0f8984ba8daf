#pragma once
#include "ops.h"
#include <cstdint>
#include <string>
#include <vector>
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t; using u128 = unsigned __int128;
struct Node {
  u8 op; u8 isF; u8 fixed; u8 w; // w: BV width (1..128); isF: double
  u32 a, b, c; u32 next;
  u64 aux, sh;
  u128 val; // concrete value under the current inputs
};
extern std::vector<Node> nodes;
extern bool gExact; // real mode: constants are exactly what they are, linear arithmetic
extern bool gReal; // real mode
struct VarInfo { std::string name; u32 expr; u8 isF; u8 w; bool hasRange, isSigned; u64 lo, hi; double flo, fhi; u64 value; bool real; };
extern std::vector<VarInfo> vars;
u32 mkConst(unsigned w, u128 v);
u32 mkF(double d);
u32 mk(unsigned op, unsigned w, bool isF, u32 a, u32 b, u32 c, u64 aux, u128 val);
static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }
u32 mkNot(u32 e);
u32 mkBin(unsigned op, unsigned w, u32 a, u32 b);
u32 mkCmp(unsigned op, u32 a, u32 b);
u32 mkExtract(u32 e, unsigned lo, unsigned w);
u32 mkZext(u32 e, unsigned w);
u32 mkSext(u32 e, unsigned w);
u32 mkConcat(u32 hi, u32 lo);
u32 mkIte(u32 c, u32 a, u32 b);
u32 mkBits(u32 f);
u32 mkFromBits(u32 b);
u32 mkF1(unsigned op, u32 a);
u32 mkF2(unsigned op, u32 a, u32 b);
u32 mkFCmp(unsigned op, u32 a, u32 b);
static inline bool isC(u32 e) { return nodes[e].op == OP_CONST; }
double fval(u32 e);
// decisions
enum DKind : u8 { D_BRANCH, D_SWITCH, D_CONC, D_ASSERT, D_ASSUME, D_NEAR, D_OBJ };
struct Dec { u8 kind; bool taken; u32 e, e2; u64 val; u64 site; const u64 *cv; const u32 *cg; u32 nc, grp, nv; const char *msg; double tol; };
extern std::vector<Dec> decs;
struct Job { std::vector<u64> vals; u32 bound = 0; u64 hash = 0; };
u64 decHash(u64 h, const Dec &d, u64 outcome);
extern u32 gMaxConc;
void unsupported(const char *why);
// solver interface
struct SolveStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, spurious = 0, asserts = 0, identities = 0, diverged = 0, capped = 0, alts = 0, oob = 0, boundary = 0; double time = 0; };
extern SolveStats sstats;
struct Sink { virtual void job(const Job &) = 0; virtual void violation(const char *kind, const char *msg, const std::vector<u64> &vals) = 0; };
void solverInit();
void solvePath(const Job &cur, Sink &sink);
extern unsigned gQueryTimeout;
void resetExprs();
void evalNodes(const std::vector<u64> &vals, u32 top, std::vector<u128> &out);
bool findObject(u64 a, u64 &lo, u64 &hi);
