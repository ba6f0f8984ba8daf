// Symbolic runtime: shadow memory, expression building for the instrumented
// code, decision recording, models of library functions.
#include "runtime.h"
#include "expr.h"
#include "../include/sym.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <sys/mman.h>
#include <unistd.h>
using u16 = uint16_t;

extern "C" {
u32 __sym_args[256];
u64 __sym_argvals[256];
void *__sym_callee;
u32 __sym_ret[64];
void *__sym_ret_fn;
}
static u32 zeros[256];
RtState rt;
static std::unordered_set<void *> *instrFns;
struct GlobalReg { u64 addr, size, cst; };
static std::vector<GlobalReg> *globalRegs;
static bool globalsSorted = false;

void unsupported(const char *why) {
  if (rt.active) rt.unsupported.insert(why);
}

// ---------------------------------------------------------------- shadow memory
struct Cell { u32 e; u8 idx; u8 snap; u16 pad; };
struct Page { Cell c[4096]; };
static std::unordered_map<u64, Page *> pages;
static u64 lastPg = ~0ULL; static Page *lastP = nullptr;
static u8 filter[1 << 16];
static inline Page *findPage(u64 a) {
  u64 p = a >> 12;
  if (!filter[(p ^ (p >> 16)) & 0xffff]) return nullptr;
  if (p == lastPg) return lastP;
  auto it = pages.find(p);
  lastPg = p;
  return lastP = it == pages.end() ? nullptr : it->second;
}
static Page *getPage(u64 a) {
  if (auto *p = findPage(a)) return p;
  auto *pg = (Page *)calloc(1, sizeof(Page));
  pages[a >> 12] = pg;
  u64 p = a >> 12;
  filter[(p ^ (p >> 16)) & 0xffff] = 1;
  lastPg = p; lastP = pg;
  return pg;
}
static inline const Cell *cellAt(u64 a) {
  auto *p = findPage(a);
  if (!p) return nullptr;
  auto &c = p->c[a & 4095];
  if (!c.e) return nullptr;
  if (c.snap != *(volatile u8 *)a) { c.e = 0; return nullptr; }
  return &c;
}
static void setCell(u64 a, u32 e, u8 idx) { auto &c = getPage(a)->c[a & 4095]; c.e = e; c.idx = idx; c.snap = *(u8 *)a; }
static void clearRange(u64 a, u64 n) {
  while (n) {
    u64 in = std::min<u64>(n, 4096 - (a & 4095));
    if (auto *p = findPage(a)) memset(&p->c[a & 4095], 0, in * sizeof(Cell));
    a += in; n -= in;
  }
}
static bool anyShadow(u64 a, u64 n) {
  while (n) {
    u64 in = std::min<u64>(n, 4096 - (a & 4095));
    if (auto *p = findPage(a)) for (u64 i = 0; i < in; ++i) if (p->c[(a & 4095) + i].e) return true;
    a += in; n -= in;
  }
  return false;
}

static u32 readByte(u64 a) {
  if (auto *c = cellAt(a)) {
    auto &n = nodes[c->e];
    if (n.isF) { u32 b = mkBits(c->e); return mkExtract(b, c->idx * 8, 8); }
    return mkExtract(c->e, c->idx * 8, 8);
  }
  return mkConst(8, *(u8 *)a);
}
// value expression of [p,p+sz) of width w (0: double)
static u32 readMem(u64 p, u32 sz, u32 w) {
  const Cell *c0 = nullptr;
  bool any = false, same = true;
  for (u32 i = 0; i < sz; ++i) {
    auto *c = cellAt(p + i);
    if (c) any = true;
    if (i == 0) c0 = c;
    if (!c || !c0 || c->e != c0->e || c->idx != i) same = false;
  }
  if (!any) return 0;
  u32 e;
  if (same && nodes[c0->e].w == sz * 8) e = c0->e;
  else if (same && nodes[c0->e].w > sz * 8 && !nodes[c0->e].isF) e = mkExtract(c0->e, 0, sz * 8);
  else {
    // in real mode partial access to a double's bytes is not representable
    e = readByte(p);
    for (u32 i = 1; i < sz; ++i) { u32 h = readByte(p + i); e = mkConcat(h, e); }
  }
  if (w == 0) return mkFromBits(e);
  if (nodes[e].isF) e = mkBits(e);
  if (w < sz * 8) e = mkExtract(e, 0, w);
  return e;
}
static void writeMem(u64 p, u32 sz, u32 e) {
  if (!e || isC(e) || nodes[e].fixed) { clearRange(p, sz); return; }
  if (!nodes[e].isF && nodes[e].w < sz * 8) e = mkZext(e, sz * 8);
  for (u32 i = 0; i < sz; ++i) setCell(p + i, e, i);
}

#include "heap.h"
bool findObject(u64 a, u64 &lo, u64 &hi) {
  if (a >= (u64)heapBase && a < (u64)heapCur) {
    auto *it = std::upper_bound(heapObjs, heapObjs + nHeapObjs, a, [](u64 x, const auto &p) { return x < p.first; });
    if (it == heapObjs) return false;
    --it;
    if (a >= it->first + it->second) return false;
    lo = it->first; hi = it->first + it->second;
    return true;
  }
  if (!globalRegs) return false;
  if (!globalsSorted) {
    std::sort(globalRegs->begin(), globalRegs->end(), [](auto &x, auto &y) { return x.addr < y.addr; });
    globalsSorted = true;
  }
  auto it = std::upper_bound(globalRegs->begin(), globalRegs->end(), a, [](u64 x, const auto &p) { return x < p.addr; });
  if (it == globalRegs->begin()) return false;
  --it;
  if (a >= it->addr + it->size) return false;
  lo = it->addr; hi = it->addr + it->size;
  return true;
}

// ---------------------------------------------------------------- decisions
static void fixTo(u32 e) { // the expression is now known to equal its concrete value
  auto &n = nodes[e];
  if (n.fixed) return;
  n.fixed = 1;
  if (n.op == OP_XOR && n.w == 1 && isC(n.b)) fixTo(n.a);
  if (n.op == OP_ZEXT || n.op == OP_SEXT) fixTo(n.a);
  if (n.op == OP_EQ && n.val && isC(n.b)) fixTo(n.a);
  if (n.op == OP_AND && n.w == 1 && n.val) { fixTo(n.a); fixTo(nodes[e].b); }
  if (n.op == OP_OR && n.w == 1 && !n.val) { fixTo(n.a); fixTo(nodes[e].b); }
}
static inline u32 cv(u32 e) { // constant view
  if (!nodes[e].fixed || isC(e)) return e;
  auto &n = nodes[e];
  if (n.isF) return mk(OP_CONST, 64, true, 0, 0, 0, 0, n.val);
  return mkConst(n.w, n.val);
}
static inline u32 opnd(unsigned w, u128 v, u32 s) {
  if (!s) return mkConst(w, v);
  if (nodes[s].isF) s = mkBits(s);
  if (nodes[s].w != w) s = nodes[s].w > w ? mkExtract(s, 0, w) : mkZext(s, w);
  return cv(s);
}
static inline u32 opndF(u64 v, u32 s) {
  if (!s) return mk(OP_CONST, 64, true, 0, 0, 0, 0, v);
  return cv(nodes[s].isF ? s : mkFromBits(s));
}
static bool splitInts = false; // real mode: fork over the integer parts of reals at once
static inline u32 ret(u32 e) { return isC(e) || nodes[e].fixed ? 0 : e; }

static void pushDec(Dec d) {
  if (decs.size() >= rt.maxDecs) { unsupported("decision limit"); rt.endPath(PE_LIMIT); }
  d.nv = vars.size();
  decs.push_back(d);
}
void concretize(u32 e) {
  if (!e || isC(e) || nodes[e].fixed) return;
  if (!rt.active) return;
  auto &n = nodes[e];
  if (n.op == OP_ZEXT || n.op == OP_SEXT) { concretize(n.a); fixTo(e); return; }
  if (n.isF && gReal) unsupported("real value concretised");
  Dec d{}; d.kind = D_CONC; d.e = e; d.val = (u64)n.val; d.taken = true;
  if (n.w > 64) unsupported("wide concretisation");
  pushDec(d);
  fixTo(e);
}
static bool branchOn(u32 e, u64 site) {
  while (nodes[e].op == OP_XOR && nodes[e].w == 1 && isC(nodes[e].b)) { // normalise negations
    bool r = branchOn(nodes[e].a, site);
    fixTo(e);
    return !r;
  }
  if (isC(e) || nodes[e].fixed) return nodes[e].val;
  Dec d{}; d.kind = D_BRANCH; d.e = e; d.taken = nodes[e].val; d.site = site;
  pushDec(d);
  fixTo(e);
  return nodes[e].val;
}

std::unordered_set<void *> gEntered;
static void *lastEntered;
extern "C" {
void __sym_register(void **f, u64 nf, void *g, u64 ng) {
  if (!instrFns) { instrFns = new std::unordered_set<void *>; globalRegs = new std::vector<GlobalReg>; }
  for (u64 i = 0; i < nf; ++i) instrFns->insert(f[i]);
  auto *gr = (GlobalReg *)g;
  for (u64 i = 0; i < ng; ++i) globalRegs->push_back(gr[i]);
}
void *__sym_enter(void *f, u32) {
  if (__sym_callee == f) { __sym_callee = nullptr; if (f != lastEntered) { lastEntered = f; gEntered.insert(f); } return __sym_args; }
  __sym_callee = nullptr;
  return zeros;
}
void *__sym_getret(void *f) {
  if (__sym_ret_fn == f && f) { __sym_ret_fn = nullptr; return __sym_ret; }
  __sym_ret_fn = nullptr;
  return zeros;
}
static std::unordered_map<void *, std::string> *extNames;
void __sym_precall(void *f, u32 n) {
  bool any = false;
  for (u32 i = 0; i < n; ++i) if (__sym_args[i]) any = true;
  if (!any) { return; }
  if (instrFns->count(f) || isModel(f)) return;
  rt.externals.insert(f);
  for (u32 i = 0; i < n; ++i) if (__sym_args[i]) { concretize(__sym_args[i]); }
  __sym_callee = nullptr;
}
// external (uninstrumented) callee that is given a pointer into symbolic memory
void __sym_ext(void *f, void *p) {
  if (!rt.active || !p || rt.extmem.count(f) || instrFns->count(f) || isModel(f)) return;
  u64 lo, hi, a = (u64)p;
  if (!findObject(a, lo, hi)) { lo = a; hi = a + 32; }
  if (hi - a > 4096) hi = a + 4096;
  for (u64 x = a; x < hi; ++x) if (cellAt(x)) { rt.extmem.insert(f); return; }
}
u32 __sym_bin(u32 op, u32 w, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sa | sb)) return 0;
  u32 ea = opnd(w, a, sa), eb = opnd(w, b, sb);
  if (isC(ea) && isC(eb)) return 0;
  // real mode: sign-bit masks on doubles
  if (gReal && (nodes[ea].op == OP_BITS || nodes[eb].op == OP_BITS)) {
    if (isC(ea)) std::swap(ea, eb);
    u64 m = (u64)nodes[eb].val;
    if (isC(eb) && op == OP_XOR && m == 1ULL << 63) return ret(mkBits(mkF1(OP_FNEG, nodes[ea].a)));
    if (isC(eb) && op == OP_AND && m == ~(1ULL << 63)) return ret(mkBits(mkF1(OP_FABS, nodes[ea].a)));
    if (isC(eb) && op == OP_AND && m == 1ULL << 63) { u32 c = mkFCmp(OP_FOLT, nodes[ea].a, mkF(0)); return ret(mkIte(c, mkConst(64, 1ULL << 63), mkConst(64, 0))); }
    if (isC(eb) && op == OP_LSHR && m == 63) return ret(mkZext(mkFCmp(OP_FOLT, nodes[ea].a, mkF(0)), 64));
    if (isC(eb) && op == OP_ADD) {}
  }
  return ret(mkBin(op, w, ea, eb));
}
u32 __sym_binw(u32 op, u32 w, u64 al, u64 ah, u32 sa, u64 bl, u64 bh, u32 sb) {
  if (!(sa | sb)) return 0;
  u32 ea = opnd(w, ((u128)ah << 64) | al, sa), eb = opnd(w, ((u128)bh << 64) | bl, sb);
  if (isC(ea) && isC(eb)) return 0;
  unsigned o = op & 0xff;
  if (o >= OP_EQ && o <= OP_SLE) { u32 r = mkCmp(o, ea, eb); return ret((op & 0x100) ? mkNot(r) : r); }
  return ret(mkBin(o, w, ea, eb));
}
u32 __sym_cmp(u32 op, u32 w, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sa | sb)) return 0;
  u32 ea = opnd(w, a, sa), eb = opnd(w, b, sb);
  if (isC(ea) && isC(eb)) return 0;
  u32 r = mkCmp(op & 0xff, ea, eb);
  if (op & 0x100) r = mkNot(r);
  return ret(r);
}
u32 __sym_fbin(u32 op, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sa | sb)) return 0;
  u32 ea = opndF(a, sa), eb = opndF(b, sb);
  if (isC(ea) && isC(eb)) return 0;
  return ret(mkF2(op, ea, eb));
}
u32 __sym_fun2(u32 op, u64 a, u32 sa, u64 b, u32 sb) { return __sym_fbin(op, a, sa, b, sb); }
u32 __sym_fcmp(u32 pred, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sa | sb)) return 0;
  u32 ea = opndF(a, sa), eb = opndF(b, sb);
  if (isC(ea) && isC(eb)) return 0;
  auto UNO = [&] { return mkFCmp(OP_FUNO, ea, eb); };
  u32 r = 0;
  switch (pred) { // llvm::CmpInst::Predicate
  case 0: return 0; case 15: return 0;
  case 1: r = mkFCmp(OP_FOEQ, ea, eb); break;
  case 2: r = mkFCmp(OP_FOLT, eb, ea); break;
  case 3: r = mkFCmp(OP_FOLE, eb, ea); break;
  case 4: r = mkFCmp(OP_FOLT, ea, eb); break;
  case 5: r = mkFCmp(OP_FOLE, ea, eb); break;
  case 6: { u32 u = UNO(); r = mkBin(OP_AND, 1, mkNot(mkFCmp(OP_FOEQ, ea, eb)), mkNot(u)); break; }
  case 7: r = mkNot(UNO()); break;
  case 8: r = UNO(); break;
  case 9: { u32 u = UNO(); r = mkBin(OP_OR, 1, u, mkFCmp(OP_FOEQ, ea, eb)); break; }
  case 10: r = mkNot(mkFCmp(OP_FOLE, ea, eb)); break;
  case 11: r = mkNot(mkFCmp(OP_FOLT, ea, eb)); break;
  case 12: r = mkNot(mkFCmp(OP_FOLE, eb, ea)); break;
  case 13: r = mkNot(mkFCmp(OP_FOLT, eb, ea)); break;
  case 14: r = mkNot(mkFCmp(OP_FOEQ, ea, eb)); break;
  }
  return ret(r);
}
u32 __sym_fun1(u32 op, u64 a, u32 sa) {
  if (!sa) return 0;
  u32 ea = opndF(a, sa);
  if (isC(ea)) return 0;
  return ret(mkF1(op, ea));
}
static u32 cast(u32 op, u32 ws, u32 wt, u128 a, u32 sa) {
  if (!sa) return 0;
  switch (op) {
  case OP_ZEXT: case OP_SEXT: case OP_EXTRACT: {
    u32 e = opnd(ws, a, sa);
    if (isC(e)) return 0;
    return ret(op == OP_ZEXT ? mkZext(e, wt) : op == OP_SEXT ? mkSext(e, wt) : mkExtract(e, 0, wt));
  }
  case OP_BITS: { u32 e = opndF((u64)a, sa); return isC(e) ? 0 : ret(mkBits(e)); }
  case OP_FROMBITS: { u32 e = opnd(64, a, sa); return isC(e) ? 0 : ret(mkFromBits(e)); }
  case OP_SITOFP: case OP_UITOFP: {
    u32 e = opnd(ws, a, sa);
    if (isC(e)) return 0;
    u128 v = nodes[e].val;
    double d = op == OP_UITOFP ? (double)v : (double)((__int128)((v ^ ((u128)1 << (ws - 1))) - ((u128)1 << (ws - 1))));
    u64 b; memcpy(&b, &d, 8);
    return mk(op, 64, true, e, 0, 0, 0, b);
  }
  case OP_FPTOSI: case OP_FPTOUI: {
    u32 e = opndF((u64)a, sa);
    if (isC(e)) return 0;
    double d = fval(e);
    u128 v = op == OP_FPTOSI ? (u128)(__int128)(int64_t)d : (u128)(u64)d;
    u32 r = mk(op, wt, false, e, 0, 0, 0, v & maskW(wt));
    if (gReal && splitInts) { concretize(r); return 0; }
    return r;
  }
  case OP_FPCLASS: {
    u32 e = opndF((u64)a, sa);
    if (isC(e)) return 0;
    if (gReal) { // finite reals: only the sign and zero matter
      u32 m = ws, r = mkConst(1, 0);
      u32 neg = mkFCmp(OP_FOLT, e, mkF(0)), zero = mkFCmp(OP_FOEQ, e, mkF(0)), pos = mkFCmp(OP_FOLT, mkF(0), e);
      if (m & 0x8) r = mkBin(OP_OR, 1, r, neg);
      if (m & 0x40) r = mkBin(OP_OR, 1, r, zero);
      if (m & 0x100) r = mkBin(OP_OR, 1, r, pos);
      return ret(r);
    }
    double d = fval(e); bool sg = std::signbit(d); bool r = false;
    switch (std::fpclassify(d)) {
    case FP_NAN: r = ws & 3; break;
    case FP_INFINITE: r = ws & (sg ? 4 : 0x200); break;
    case FP_NORMAL: r = ws & (sg ? 8 : 0x100); break;
    case FP_SUBNORMAL: r = ws & (sg ? 0x10 : 0x80); break;
    default: r = ws & (sg ? 0x20 : 0x40); break;
    }
    return mk(OP_FPCLASS, 1, false, e, 0, 0, ws, r);
  }
  }
  return 0;
}
u32 __sym_cast(u32 op, u32 ws, u32 wt, u64 a, u32 sa) { return cast(op, ws, wt, a, sa); }
u32 __sym_castw(u32 op, u32 ws, u32 wt, u64 al, u64 ah, u32 sa) { return cast(op, ws, wt, ((u128)ah << 64) | al, sa); }
u32 __sym_ite(u32 sc, bool c, u32 w, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sc | sa | sb)) return 0;
  u32 ec = opnd(1, c, sc);
  u32 ea = w ? opnd(w, a, sa) : opndF(a, sa), eb = w ? opnd(w, b, sb) : opndF(b, sb);
  if (w && nodes[ea].isF) ea = mkBits(ea);
  return ret(mkIte(ec, ea, eb));
}
bool __sym_branch(bool c, u32 s, u64 site) {
  if (!s || !rt.active) return c;
  s = opnd(1, c, s);
  if (isC(s)) return c;
  return branchOn(s, site);
}
void __sym_switch(u64 v, u32 s, u32 w, u32 n, const u64 *vals, const u32 *grps) {
  if (!s || !rt.active) return;
  u32 e = opnd(w, v, s);
  if (isC(e)) return;
  Dec d{}; d.kind = D_SWITCH; d.e = e; d.cv = vals; d.cg = grps; d.nc = n; d.grp = 0; d.taken = true;
  u32 cnt = 0;
  v = (u64)nodes[e].val;
  for (u32 i = 0; i < n; ++i) if ((vals[i] & (u64)maskW(w)) == v) d.grp = grps[i];
  if (d.grp) for (u32 i = 0; i < n; ++i) if (grps[i] == d.grp) ++cnt;
  pushDec(d);
  if (cnt == 1) fixTo(e);
}
void __sym_concretize(u64, u32 s, u32) { if (s) concretize(s); }
u32 __sym_load(void *p, u32 sz, u32 w, u64) {
  u64 a = (u64)p;
  if (!findPage(a) && !findPage(a + sz - 1)) return 0;
  u32 e = readMem(a, sz, w);
  return e ? ret(e) : 0;
}
void __sym_store(void *p, u32 sz, u32 s, u64) {
  if (!s) { clearRange((u64)p, sz); return; }
  writeMem((u64)p, sz, s);
}
void __sym_clear(void *p, u64 n) { clearRange((u64)p, n); }
u32 __sym_gep(u64 base, u32 sb, u64 idx, u32 si, u64 scale) {
  if (!(sb | si)) return 0;
  u32 eb = opnd(64, base, sb), ei = opnd(64, idx, si);
  if (isC(eb) && isC(ei)) return 0;
  return ret(mkBin(OP_ADD, 64, eb, mkBin(OP_MUL, 64, ei, mkConst(64, scale))));
}
// symbolic load address: either an ITE over the object's cells, or concretise
u32 __sym_addr(void *p, u32 sp, u32 sz, u32 w) {
  if (!sp) return 0;
  u32 e = opnd(64, (u64)p, sp);
  if (isC(e)) return 0;
  u64 a = (u64)p, lo, hi;
  if (sz && sz <= 8 && rt.active && findObject(a, lo, hi) && a + sz <= hi) {
    // the object is a decision; within it the load is a table lookup
    u32 inb = mkCmp(OP_ULE, mkBin(OP_SUB, 64, e, mkConst(64, lo)), mkConst(64, hi - lo - sz));
    if (!isC(inb) && !nodes[inb].fixed) {
      Dec d{}; d.kind = D_OBJ; d.e = e; d.val = lo; d.site = hi - lo - sz; d.grp = sz; d.taken = true;
      pushDec(d);
      fixTo(inb);
    }
    if ((hi - lo) / sz > rt.iteLimit) { concretize(e); return 0; }
    u64 start = lo + ((a - lo) % sz);
    // alignment as a decision only when not syntactically evident
    if (sz > 1) {
      u32 al = mkCmp(OP_EQ, mkBin(OP_UREM, 64, mkBin(OP_SUB, 64, e, mkConst(64, start)), mkConst(64, sz)), mkConst(64, 0));
      bool evident = false;
      { // e = base + scale*idx with scale % sz == 0
        u32 x = e; evident = true;
        while (true) {
          auto &n = nodes[x];
          if (n.op == OP_ADD && isC(n.b)) { x = n.a; continue; }
          if (n.op == OP_MUL && isC(n.b) && (u64)nodes[n.b].val % sz == 0) break;
          if (n.op == OP_SHL && isC(n.b) && ((u64)1 << (u64)nodes[n.b].val) % sz == 0) break;
          evident = false; break;
        }
        (void)x;
      }
      if (!evident) branchOn(al, 0xb0b1);
    }
    u32 r = 0;
    bool first = true;
    for (u64 q = start; q + sz <= hi; q += sz) {
      u32 v = readMem(q, sz, w);
      if (!v) {
        u128 cvv = 0; memcpy(&cvv, (void *)q, sz);
        if (w == 0) { v = mk(OP_CONST, 64, true, 0, 0, 0, 0, cvv); }
        else v = mkConst(w, cvv);
      }
      if (first) { r = v; first = false; }
      else r = mkIte(mkCmp(OP_EQ, e, mkConst(64, q)), v, r);
    }
    return isC(r) ? 0 : r;
  }
  if (sz && sz <= 8 && rt.active && !nodes[e].fixed) { // not a known object: a single address
    Dec d{}; d.kind = D_OBJ; d.e = e; d.val = a; d.site = 0; d.grp = sz; d.taken = true;
    pushDec(d);
    fixTo(e);
    return 0;
  }
  concretize(e);
  return 0;
}
static void copyShadow(u64 d, u64 s, u64 n) {
  if (!n) return;
  if (!anyShadow(s, n)) { clearRange(d, n); return; }
  std::vector<Cell> tmp(n);
  for (u64 i = 0; i < n; ++i) { auto *c = cellAt(s + i); if (c) tmp[i] = *c; else tmp[i].e = 0; }
  clearRange(d, n);
  for (u64 i = 0; i < n; ++i) if (tmp[i].e) getPage(d + i)->c[(d + i) & 4095] = tmp[i];
}
void __sym_memcpy(void *d, u32 sd, void *s, u32 ss, u64 n, u32 sn) {
  if (sd) concretize(sd);
  if (ss) concretize(ss);
  if (sn) concretize(sn);
  copyShadow((u64)d, (u64)s, n);
}
void __sym_memset(void *d, u32 sd, u8 v, u32 sv, u64 n, u32 sn) {
  if (sd) concretize(sd);
  if (sn) concretize(sn);
  if (!sv) { clearRange((u64)d, n); return; }
  u32 e = opnd(8, v, sv);
  if (isC(e)) { clearRange((u64)d, n); return; }
  for (u64 i = 0; i < n; ++i) setCell((u64)d + i, e, 0);
}
u32 __sym_intr(u32 op, u32 w, u64 a, u32 sa, u64 b, u32 sb, u64 c, u32 sc) {
  if (!(sa | sb | sc)) return 0;
  u32 ea = opnd(w, a, sa), eb = opnd(w, b, sb), ec = opnd(w, c, sc);
  if (isC(ea) && isC(eb) && isC(ec)) return 0;
  auto wide = [&](bool sg, unsigned o, unsigned W) {
    u32 x = sg ? mkSext(ea, W) : mkZext(ea, W), y = sg ? mkSext(eb, W) : mkZext(eb, W);
    u32 r = mkBin(o, W, x, y);
    u32 t = mkExtract(r, 0, w);
    return mkNot(mkCmp(OP_EQ, r, sg ? mkSext(t, W) : mkZext(t, W)));
  };
  unsigned W2 = w * 2 > 128 ? 128 : w * 2;
  switch (op) {
  case IN_UMAX: return ret(mkIte(mkCmp(OP_ULT, ea, eb), eb, ea));
  case IN_UMIN: return ret(mkIte(mkCmp(OP_ULT, ea, eb), ea, eb));
  case IN_SMAX: return ret(mkIte(mkCmp(OP_SLT, ea, eb), eb, ea));
  case IN_SMIN: return ret(mkIte(mkCmp(OP_SLT, ea, eb), ea, eb));
  case IN_ABS: return ret(mkIte(mkCmp(OP_SLT, ea, mkConst(w, 0)), mkBin(OP_SUB, w, mkConst(w, 0), ea), ea));
  case IN_UADDSAT: { u32 s = mkBin(OP_ADD, w, ea, eb); return ret(mkIte(mkCmp(OP_ULT, s, ea), mkConst(w, ~(u128)0), s)); }
  case IN_USUBSAT: return ret(mkIte(mkCmp(OP_ULT, ea, eb), mkConst(w, 0), mkBin(OP_SUB, w, ea, eb)));
  case IN_CTPOP: { u32 r = mkConst(w, 0); for (u32 i = 0; i < w; ++i) r = mkBin(OP_ADD, w, r, mkZext(mkExtract(ea, i, 1), w)); return ret(r); }
  case IN_BSWAP: { u32 r = mkExtract(ea, 0, 8); for (u32 i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(ea, i, 8)); return ret(r); }
  case IN_CTLZ: { u32 r = mkConst(w, w); for (u32 i = 0; i < w; ++i) r = mkIte(mkExtract(ea, i, 1), mkConst(w, w - 1 - i), r); return ret(r); }
  case IN_CTTZ: { u32 r = mkConst(w, w); for (int i = w - 1; i >= 0; --i) r = mkIte(mkExtract(ea, i, 1), mkConst(w, i), r); return ret(r); }
  case IN_FSHL: case IN_FSHR: {
    if (2 * w > 128) return 0;
    u32 x = mkConcat(ea, eb), sh = mkZext(mkBin(OP_UREM, w, ec, mkConst(w, w)), 2 * w);
    if (op == IN_FSHL) return ret(mkExtract(mkBin(OP_SHL, 2 * w, x, sh), w, w));
    return ret(mkExtract(mkBin(OP_LSHR, 2 * w, x, sh), 0, w));
  }
  case IN_UADDO: return ret(mkCmp(OP_ULT, mkBin(OP_ADD, w, ea, eb), ea));
  case IN_USUBO: return ret(mkCmp(OP_ULT, ea, eb));
  case IN_UMULO: return ret(wide(false, OP_MUL, W2));
  case IN_SADDO: return ret(wide(true, OP_ADD, W2));
  case IN_SSUBO: return ret(wide(true, OP_SUB, W2));
  case IN_SMULO: return ret(wide(true, OP_MUL, W2));
  }
  return 0;
}
} // extern "C"

// ---------------------------------------------------------------- models
static u32 argS(void *self, unsigned i) { return rt.modelArgs == self ? __sym_args[i] : 0; }
#define MODEL_ENTER(f) do { rt.modelArgs = __sym_callee == (void *)&f ? (void *)&f : nullptr; __sym_callee = nullptr; __sym_ret_fn = nullptr; } while (0)
#define A(f, i) argS((void *)&f, i)
#define RET(f, e) do { u32 _e = (e); if (_e) { __sym_ret[0] = _e; __sym_ret_fn = (void *)&f; } } while (0)
static std::unordered_set<void *> *models;
bool isModel(void *f) { return models && models->count(f); }
struct RegModel { RegModel(void *f) { if (!models) models = new std::unordered_set<void *>; models->insert(f); } };
#define REG(f) static RegModel rm_##f((void *)&f);

static u32 byteE(u64 a) { return cv(readByte(a)); }
static int cmpBytes(const u8 *a, const u8 *b, size_t n, bool str, u32 &outE) {
  // branches at every symbolic byte: the position of the first difference is a
  // decision; the sign of the difference stays symbolic
  outE = 0;
  for (size_t i = 0; i < n; ++i) {
    u32 x = byteE((u64)a + i), y = byteE((u64)b + i);
    if (isC(x) && isC(y)) {
      if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    } else {
      bool eq = branchOn(mkCmp(OP_EQ, x, y), 0xcc01);
      if (!eq) {
        u32 lt = mkCmp(OP_ULT, cv(x), cv(y));
        int r = a[i] < b[i] ? -1 : 1;
        if (!isC(lt)) outE = mkIte(lt, mkConst(32, (u32)-1), mkConst(32, 1));
        return r;
      }
    }
    if (str) {
      u32 z = byteE((u64)a + i);
      if (!isC(z)) { if (branchOn(mkCmp(OP_EQ, z, mkConst(8, 0)), 0xcc02)) return 0; }
      else if (!a[i]) return 0;
    }
  }
  return 0;
}
extern "C" {
void *__symw_memcpy(void *d, const void *s, size_t n) { MODEL_ENTER(__symw_memcpy); concretize(A(__symw_memcpy, 0)); concretize(A(__symw_memcpy, 1)); concretize(A(__symw_memcpy, 2)); copyShadow((u64)d, (u64)s, n); return memcpy(d, s, n); }
REG(__symw_memcpy)
void *__symw_memmove(void *d, const void *s, size_t n) { MODEL_ENTER(__symw_memmove); concretize(A(__symw_memmove, 0)); concretize(A(__symw_memmove, 1)); concretize(A(__symw_memmove, 2)); copyShadow((u64)d, (u64)s, n); return memmove(d, s, n); }
REG(__symw_memmove)
void *__symw_memset(void *d, int v, size_t n) { MODEL_ENTER(__symw_memset); concretize(A(__symw_memset, 0)); concretize(A(__symw_memset, 2)); u32 sv = A(__symw_memset, 1); memset(d, v, n); __sym_memset(d, 0, (u8)v, sv ? mkExtract(sv, 0, 8) : 0, n, 0); return d; }
REG(__symw_memset)
int __symw_memcmp(const void *a, const void *b, size_t n) { MODEL_ENTER(__symw_memcmp); concretize(A(__symw_memcmp, 0)); concretize(A(__symw_memcmp, 1)); concretize(A(__symw_memcmp, 2)); u32 e; int r = cmpBytes((u8 *)a, (u8 *)b, n, false, e); __sym_ret_fn = nullptr; RET(__symw_memcmp, e); return r; }
REG(__symw_memcmp)
int __symw_bcmp(const void *a, const void *b, size_t n) {
  MODEL_ENTER(__symw_bcmp); concretize(A(__symw_bcmp, 0)); concretize(A(__symw_bcmp, 1)); concretize(A(__symw_bcmp, 2));
  if (!anyShadow((u64)a, n) && !anyShadow((u64)b, n)) return memcmp(a, b, n) != 0;
  u32 all = mkConst(1, 1); bool eq = true;
  for (size_t i = 0; i < n; ++i) { all = mkBin(OP_AND, 1, all, mkCmp(OP_EQ, byteE((u64)a + i), byteE((u64)b + i))); eq &= ((u8 *)a)[i] == ((u8 *)b)[i]; }
  if (!isC(all)) RET(__symw_bcmp, ret(mkZext(mkNot(all), 32)));
  return !eq;
}
REG(__symw_bcmp)
void *__symw_memchr(const void *p, int c, size_t n) {
  MODEL_ENTER(__symw_memchr); concretize(A(__symw_memchr, 0)); concretize(A(__symw_memchr, 1)); concretize(A(__symw_memchr, 2));
  for (size_t i = 0; i < n; ++i) {
    u32 x = byteE((u64)p + i);
    bool hit = isC(x) ? ((u8 *)p)[i] == (u8)c : branchOn(mkCmp(OP_EQ, x, mkConst(8, (u8)c)), 0xcc03);
    if (hit) return (u8 *)p + i;
  }
  return nullptr;
}
REG(__symw_memchr)
size_t __symw_strlen(const char *s) {
  MODEL_ENTER(__symw_strlen); concretize(A(__symw_strlen, 0));
  size_t i = 0;
  for (;; ++i) {
    u32 x = byteE((u64)s + i);
    bool z = isC(x) ? !s[i] : branchOn(mkCmp(OP_EQ, x, mkConst(8, 0)), 0xcc04);
    if (z) return i;
  }
}
REG(__symw_strlen)
int __symw_strcmp(const char *a, const char *b) { MODEL_ENTER(__symw_strcmp); concretize(A(__symw_strcmp, 0)); concretize(A(__symw_strcmp, 1)); u32 e; int r = cmpBytes((u8 *)a, (u8 *)b, ~0UL >> 1, true, e); RET(__symw_strcmp, e); return r; }
REG(__symw_strcmp)
int __symw_strncmp(const char *a, const char *b, size_t n) { MODEL_ENTER(__symw_strncmp); concretize(A(__symw_strncmp, 0)); concretize(A(__symw_strncmp, 1)); concretize(A(__symw_strncmp, 2)); u32 e; int r = cmpBytes((u8 *)a, (u8 *)b, n, true, e); RET(__symw_strncmp, e); return r; }
REG(__symw_strncmp)
void __symw_free(void *p) { MODEL_ENTER(__symw_free); free(p); }
REG(__symw_free)
#define F1(name, opc) double __symw_##name(double x) { MODEL_ENTER(__symw_##name); u32 s = A(__symw_##name, 0); double r = name(x); if (s) { u64 b; memcpy(&b, &x, 8); u32 e = opndF(b, s); if (!isC(e)) RET(__symw_##name, ret(mkF1(opc, e))); } return r; } REG(__symw_##name)
F1(sqrt, OP_FSQRT) F1(fabs, OP_FABS) F1(sin, OP_SIN) F1(cos, OP_COS) F1(tan, OP_TAN) F1(exp, OP_EXP) F1(log, OP_LOG) F1(log2, OP_LOG2)
F1(asin, OP_ASIN) F1(acos, OP_ACOS) F1(atan, OP_ATAN) F1(floor, OP_FFLOOR) F1(ceil, OP_FCEIL) F1(round, OP_FROUND) F1(nearbyint, OP_FRINT) F1(rint, OP_FRINT) F1(trunc, OP_FTRUNC)
#define F2(name, opc) double __symw_##name(double x, double y) { MODEL_ENTER(__symw_##name); u32 s = A(__symw_##name, 0), t = A(__symw_##name, 1); double r = name(x, y); if (s | t) { u64 b, c; memcpy(&b, &x, 8); memcpy(&c, &y, 8); u32 e = opndF(b, s), f = opndF(c, t); if (!isC(e) || !isC(f)) RET(__symw_##name, ret(mkF2(opc, e, f))); } return r; } REG(__symw_##name)
F2(atan2, OP_ATAN2) F2(pow, OP_POW) F2(hypot, OP_HYPOT) F2(fmod, OP_FREM)
#define FCONC1(R, name, T) R __symw_##name(T x) { MODEL_ENTER(__symw_##name); concretize(A(__symw_##name, 0)); return name(x); } REG(__symw_##name)
FCONC1(double, log10, double)
FCONC1(int, tolower, int) FCONC1(int, toupper, int)
double __symw_remainder(double x, double y) { MODEL_ENTER(__symw_remainder); concretize(A(__symw_remainder, 0)); concretize(A(__symw_remainder, 1)); return remainder(x, y); } REG(__symw_remainder)
#define LR(name) long __symw_##name(double x) { MODEL_ENTER(__symw_##name); u32 s = A(__symw_##name, 0); long r = name(x); if (s) { u64 b; memcpy(&b, &x, 8); u32 e = opndF(b, s); if (!isC(e)) { u32 q = mkF1(#name[1] == 'r' && #name[2] == 'i' ? OP_FRINT : OP_FROUND, e); RET(__symw_##name, mk(OP_FPTOSI, 64, false, q, 0, 0, 0, (u128)(u64)r)); } } return r; } REG(__symw_##name)
LR(lround) LR(lrint)
long long __symw_llround(double x) { MODEL_ENTER(__symw_llround); concretize(A(__symw_llround, 0)); return llround(x); } REG(__symw_llround)
long long __symw_llrint(double x) { MODEL_ENTER(__symw_llrint); concretize(A(__symw_llrint, 0)); return llrint(x); } REG(__symw_llrint)
void __symw_sincos(double x, double *s, double *c) {
  MODEL_ENTER(__symw_sincos); u32 e = A(__symw_sincos, 0);
  *s = sin(x); *c = cos(x); clearRange((u64)s, 8); clearRange((u64)c, 8);
  if (e) { u64 b; memcpy(&b, &x, 8); e = opndF(b, e); if (!isC(e)) { writeMem((u64)s, 8, mkF1(OP_SIN, e)); writeMem((u64)c, 8, mkF1(OP_COS, e)); } }
}
REG(__symw_sincos)
// character classes of the C locale as formulas
static u32 inR(u32 e, int lo, int hi) { return mkCmp(OP_ULE, mkBin(OP_SUB, 32, e, mkConst(32, lo)), mkConst(32, hi - lo)); }
#define CT(name, expr) int __symw_##name(int x) { MODEL_ENTER(__symw_##name); u32 s = A(__symw_##name, 0); int r = name(x) != 0; if (s) { u32 e = opnd(32, (u32)x, s); if (!isC(e)) { u32 q = expr; RET(__symw_##name, ret(mkZext(q, 32))); } } return r; } REG(__symw_##name)
#define OR2(a, b) mkBin(OP_OR, 1, a, b)
CT(isdigit, inR(e, '0', '9'))
CT(isalpha, OR2(inR(e, 'a', 'z'), inR(e, 'A', 'Z')))
CT(isalnum, OR2(OR2(inR(e, 'a', 'z'), inR(e, 'A', 'Z')), inR(e, '0', '9')))
CT(isspace, OR2(inR(e, 9, 13), mkCmp(OP_EQ, e, mkConst(32, ' '))))
CT(isxdigit, OR2(OR2(inR(e, 'a', 'f'), inR(e, 'A', 'F')), inR(e, '0', '9')))
double __symw_strtod(const char *s, char **end) {
  MODEL_ENTER(__symw_strtod); concretize(A(__symw_strtod, 0));
  for (size_t i = 0;; ++i) { concretize(readByte((u64)s + i)); if (!s[i]) break; }
  double r = strtod(s, end);
  if (end) clearRange((u64)end, 8);
  return r;
}
REG(__symw_strtod)

// ---------------------------------------------------------------- harness API
static u32 newVar(const char *name, unsigned w, bool isF, u64 dflt, bool hasRange, bool sg, u64 lo, u64 hi, double flo = 0, double fhi = 0, bool real = false) {
  u32 i = vars.size();
  VarInfo v; v.name = name; v.isF = isF; v.w = w; v.hasRange = hasRange; v.isSigned = sg; v.lo = lo; v.hi = hi; v.flo = flo; v.fhi = fhi; v.real = real;
  v.value = i < rt.job.vals.size() ? rt.job.vals[i] : dflt;
  v.expr = mk(OP_VAR, w, isF, 0, 0, 0, i, v.value & (u64)maskW(w));
  vars.push_back(v);
  return v.expr;
}
#define API(f, R, w, dflt, hr, sg, lo, hi) do { u32 e = newVar(name, w, false, (u64)(dflt), hr, sg, (u64)(lo), (u64)(hi)); __sym_ret[0] = e; __sym_ret_fn = (void *)&f; return (R)nodes[e].val; } while (0)
uint8_t sym_u8(const char *name) { API(sym_u8, uint8_t, 8, 0, false, false, 0, 0); } REG(sym_u8)
uint16_t sym_u16(const char *name) { API(sym_u16, uint16_t, 16, 0, false, false, 0, 0); } REG(sym_u16)
uint32_t sym_u32(const char *name) { API(sym_u32, uint32_t, 32, 0, false, false, 0, 0); } REG(sym_u32)
uint64_t sym_u64(const char *name) { API(sym_u64, uint64_t, 64, 0, false, false, 0, 0); } REG(sym_u64)
int32_t sym_i32(const char *name) { API(sym_i32, int32_t, 32, 0, false, false, 0, 0); } REG(sym_i32)
int64_t sym_i64(const char *name) { API(sym_i64, int64_t, 64, 0, false, false, 0, 0); } REG(sym_i64)
// ranged values are narrow variables zero-extended, offset by the lower bound
uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi) {
  if (lo == hi) { __sym_ret_fn = nullptr; return lo; }
  unsigned w = 1; while (w < 64 && ((hi - lo) >> w)) ++w;
  u32 v = newVar(name, w, false, 0, (hi - lo) != (u64)maskW(w), false, 0, hi - lo);
  if (nodes[v].val > hi - lo) { unsupported("range mismatch"); rt.endPath(PE_ASSUME); }
  u32 e = mkBin(OP_ADD, 64, mkZext(v, 64), mkConst(64, lo));
  __sym_ret[0] = e; __sym_ret_fn = (void *)&sym_range;
  return (u64)nodes[e].val;
}
REG(sym_range)
int64_t sym_srange(const char *name, int64_t lo, int64_t hi) {
  u64 r = sym_range(name, 0, (u64)hi - (u64)lo);
  u32 e = __sym_ret_fn ? __sym_ret[0] : 0;
  __sym_ret_fn = nullptr;
  if (e) { e = mkBin(OP_ADD, 64, e, mkConst(64, (u64)lo)); __sym_ret[0] = e; __sym_ret_fn = (void *)&sym_srange; }
  return (int64_t)(r + (u64)lo);
}
REG(sym_srange)
bool sym_bool(const char *name) { API(sym_bool, bool, 1, 0, false, false, 0, 0); } REG(sym_bool)
double sym_double(const char *name) { u32 e = newVar(name, 64, true, 0, false, false, 0, 0); __sym_ret[0] = e; __sym_ret_fn = (void *)&sym_double; return fval(e); } REG(sym_double)
double sym_real(const char *name, double lo, double hi) {
  double m = lo <= 0.3718 && hi >= 0.3718 ? 0.3718 : lo + (hi - lo) * 0.37; u64 b; memcpy(&b, &m, 8);
  u32 e = newVar(name, 64, true, b, true, false, 0, 0, lo, hi, true);
  __sym_ret[0] = e; __sym_ret_fn = (void *)&sym_real; return fval(e);
}
REG(sym_real)
void sym_assume(bool c) {
  MODEL_ENTER(sym_assume); u32 s = A(sym_assume, 0);
  if (s) s = opnd(1, c, s);
  if (!s || isC(s)) { if (!c) rt.endPath(PE_ASSUME); return; }
  Dec d{}; d.kind = D_ASSUME; d.e = s; d.taken = nodes[s].val;
  pushDec(d);
  bool v = nodes[s].val;
  fixTo(s);
  if (!v) rt.endPath(PE_ASSUME);
}
REG(sym_assume)
void sym_assert(bool c, const char *msg) {
  MODEL_ENTER(sym_assert); u32 s = A(sym_assert, 0);
  rt.asserts++;
  if (s) s = opnd(1, c, s);
  if (!s || isC(s)) { if (!c) rt.fail("assert", msg); return; }
  Dec d{}; d.kind = D_ASSERT; d.e = s; d.taken = nodes[s].val; d.msg = msg;
  pushDec(d);
  if (!nodes[s].val) { if (!gReal) rt.fail("assert", msg); }
  else fixTo(s);
}
REG(sym_assert)
void sym_assert_near(double a, double b, double tol, const char *msg) {
  MODEL_ENTER(sym_assert_near); u32 s = A(sym_assert_near, 0), t = A(sym_assert_near, 1);
  rt.asserts++;
  u64 ba, bb; memcpy(&ba, &a, 8); memcpy(&bb, &b, 8);
  u32 ea = opndF(ba, s), eb = opndF(bb, t);
  bool native = std::fabs(a - b) <= tol;
  if (isC(ea) && isC(eb)) { if (!native) rt.fail("assert", msg); return; }
  Dec d{}; d.kind = D_NEAR; d.e = ea; d.e2 = eb; d.tol = tol; d.taken = native; d.msg = msg;
  pushDec(d);
  if (!native) rt.fail("assert", msg);
}
REG(sym_assert_near)
void sym_cover(const char *id) { rt.covers.insert(id); }
void sym_note(const char *, std::uint64_t) { MODEL_ENTER(sym_note); } REG(sym_note)
int sym_tier(void) { return rt.tier; }
void sym_real_mode(void) { gReal = true; }
void sym_split_ints(void) { splitInts = gExact = true; }
uint64_t sym_pin(uint64_t v) { MODEL_ENTER(sym_pin); concretize(A(sym_pin, 0)); return v; } REG(sym_pin)
int sym_is_replay(void) { return 0; }
// registry helper for models in other files
void __sym_conc_region(const void *p, u64 n) { for (u64 i = 0; i < n; ++i) { u32 b = readByte((u64)p + i); concretize(b); } clearRange((u64)p, n); }
}
