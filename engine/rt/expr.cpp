// Hash-consed expression DAG with concrete values.
#include "expr.h"
#include <cmath>
#include <cstring>
#include <algorithm>
std::vector<Node> nodes(1);
std::vector<VarInfo> vars;
std::vector<Dec> decs;
bool gReal = false, gExact = false;
static std::vector<u32> table(1 << 14, 0);
static u64 hsh(unsigned op, unsigned w, bool f, u32 a, u32 b, u32 c, u64 aux, u128 cv) {
  u64 h = op * 0x9E3779B97F4A7C15ULL + w * 131 + f;
  auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; };
  mix(a); mix(b); mix(c); mix(aux); mix((u64)cv); mix((u64)(cv >> 64));
  return h ^ (h >> 29);
}
u32 mk(unsigned op, unsigned w, bool isF, u32 a, u32 b, u32 c, u64 aux, u128 val) {
  u128 key = op == OP_CONST ? val : 0;
  u64 h = hsh(op, w, isF, a, b, c, aux, key);
  for (u32 i = table[h & (table.size() - 1)]; i; i = nodes[i].next) {
    auto &n = nodes[i];
    if (n.op == op && n.w == w && n.isF == isF && n.a == a && n.b == b && n.c == c && n.aux == aux && (op != OP_CONST || n.val == val))
      return i;
  }
  if (nodes.size() > table.size()) {
    std::vector<u32> nt(table.size() * 4, 0);
    for (u32 i = 1; i < nodes.size(); ++i) {
      auto &n = nodes[i];
      u64 hh = hsh(n.op, n.w, n.isF, n.a, n.b, n.c, n.aux, n.op == OP_CONST ? n.val : 0) & (nt.size() - 1);
      n.next = nt[hh];
      nt[hh] = i;
    }
    table.swap(nt);
  }
  Node n{};
  n.op = op; n.w = w; n.isF = isF; n.a = a; n.b = b; n.c = c; n.aux = aux; n.val = val;
  n.fixed = op == OP_CONST;
  n.sh = hsh(op, w, isF, (u32)(nodes[a].sh ^ (nodes[a].sh >> 32)), (u32)(nodes[b].sh ^ (nodes[b].sh >> 32)), (u32)(nodes[c].sh ^ (nodes[c].sh >> 32)), aux, key);
  u64 s = h & (table.size() - 1);
  n.next = table[s];
  nodes.push_back(n);
  table[s] = nodes.size() - 1;
  return nodes.size() - 1;
}
u32 mkConst(unsigned w, u128 v) { return mk(OP_CONST, w, false, 0, 0, 0, 0, v & maskW(w)); }
u32 mkF(double d) { u64 b; memcpy(&b, &d, 8); return mk(OP_CONST, 64, true, 0, 0, 0, 0, b); }
double fval(u32 e) { u64 b = (u64)nodes[e].val; double d; memcpy(&d, &b, 8); return d; }
static u128 fbits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static __int128 sx(u128 v, unsigned w) { if (w >= 128) return (__int128)v; u128 s = (u128)1 << (w - 1); return (__int128)((v ^ s) - s); }
u32 mkNot(u32 e) {
  if (nodes[e].op == OP_XOR && isC(nodes[e].b) && nodes[nodes[e].b].val == 1) return nodes[e].a;
  if (isC(e)) return mkConst(1, !nodes[e].val);
  return mk(OP_XOR, 1, false, e, mkConst(1, 1), 0, 0, !nodes[e].val);
}
u32 mkBin(unsigned op, unsigned w, u32 a, u32 b) {
  u128 x = nodes[a].val, y = nodes[b].val, m = maskW(w), r = 0;
  switch (op) {
  case OP_ADD: r = x + y; break;
  case OP_SUB: r = x - y; break;
  case OP_MUL: r = x * y; break;
  case OP_UDIV: r = y ? x / y : m; break;
  case OP_UREM: r = y ? x % y : x; break;
  case OP_SDIV: { auto sy = sx(y, w), sxx = sx(x, w); r = sy ? (sy == -1 ? (u128)(-(u128)sxx) : (u128)(sxx / sy)) : (sxx < 0 ? 1 : m); break; }
  case OP_SREM: { auto sy = sx(y, w), sxx = sx(x, w); r = sy ? (sy == -1 ? 0 : (u128)(sxx % sy)) : x; break; }
  case OP_SHL: r = y >= w ? 0 : x << (unsigned)y; break;
  case OP_LSHR: r = y >= w ? 0 : x >> (unsigned)y; break;
  case OP_ASHR: r = (u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)); break;
  case OP_AND: r = x & y; break;
  case OP_OR: r = x | y; break;
  case OP_XOR: r = x ^ y; break;
  }
  r &= m;
  if (isC(a) && isC(b)) return mkConst(w, r);
  bool comm = op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR;
  if (comm && isC(a)) { std::swap(a, b); std::swap(x, y); }
  else if (comm && !isC(b) && a > b) { std::swap(a, b); std::swap(x, y); }
  if (isC(b)) {
    if (y == 0) {
      switch (op) {
      case OP_ADD: case OP_SUB: case OP_OR: case OP_XOR: case OP_SHL: case OP_LSHR: case OP_ASHR: return a;
      case OP_AND: case OP_MUL: return b;
      default: break;
      }
    }
    if (y == m) { if (op == OP_AND) return a; if (op == OP_OR) return b; }
    if (y == 1 && w > 1 && (op == OP_MUL || op == OP_UDIV || op == OP_SDIV)) return a;
    if (w == 1 && op == OP_XOR) return mkNot(a);
    if (op == OP_SUB) return mkBin(OP_ADD, w, a, mkConst(w, -y));
    if (op == OP_ADD && nodes[a].op == OP_ADD && isC(nodes[a].b))
      return mkBin(OP_ADD, w, nodes[a].a, mkConst(w, nodes[nodes[a].b].val + y));
    if (op == OP_AND && nodes[a].op == OP_ZEXT && (y & maskW(nodes[nodes[a].a].w)) == maskW(nodes[nodes[a].a].w)) return a;
    if (op == OP_AND && nodes[a].op == OP_AND && isC(nodes[a].b)) return mkBin(OP_AND, w, nodes[a].a, mkConst(w, nodes[nodes[a].b].val & y));
    // zext(bool) shl/and/or patterns left to the solver
    if (op == OP_AND && y == 1 && nodes[a].op == OP_ZEXT && nodes[nodes[a].a].w == 1) return a;
    if (op == OP_XOR && y == 1 && nodes[a].op == OP_ZEXT && nodes[nodes[a].a].w == 1) return mkZext(mkNot(nodes[a].a), w);
  }
  if (a == b) {
    if (op == OP_AND || op == OP_OR) return a;
    if (op == OP_XOR || op == OP_SUB) return mkConst(w, 0);
  }
  // and/or/xor over zext'ed narrow values
  if ((op == OP_AND || op == OP_OR || op == OP_XOR) && nodes[a].op == OP_ZEXT && nodes[b].op == OP_ZEXT && nodes[nodes[a].a].w == nodes[nodes[b].a].w)
    return mkZext(mkBin(op, nodes[nodes[a].a].w, nodes[a].a, nodes[b].a), w);
  return mk(op, w, false, a, b, 0, 0, r);
}
u32 mkCmp(unsigned op, u32 a, u32 b) {
  unsigned w = nodes[a].w;
  u128 x = nodes[a].val, y = nodes[b].val;
  bool r = false;
  switch (op) {
  case OP_EQ: r = x == y; break;
  case OP_ULT: r = x < y; break;
  case OP_ULE: r = x <= y; break;
  case OP_SLT: r = sx(x, w) < sx(y, w); break;
  case OP_SLE: r = sx(x, w) <= sx(y, w); break;
  }
  if (isC(a) && isC(b)) return mkConst(1, r);
  if (a == b) return mkConst(1, op == OP_EQ || op == OP_ULE || op == OP_SLE);
  if (op == OP_EQ && isC(a)) { std::swap(a, b); std::swap(x, y); }
  if (op == OP_EQ && !isC(b) && a > b) std::swap(a, b);
  if (op == OP_EQ && isC(b)) {
    auto &n = nodes[a];
    if (w == 1) return y ? a : mkNot(a);
    if (n.op == OP_ZEXT) {
      unsigned kw = nodes[n.a].w;
      if (y > maskW(kw)) return mkConst(1, 0);
      return mkCmp(OP_EQ, n.a, mkConst(kw, y));
    }
    if (n.op == OP_SEXT) {
      unsigned kw = nodes[n.a].w;
      u128 lo = y & maskW(kw);
      if (((u128)sx(lo, kw) & maskW(w)) != y) return mkConst(1, 0);
      return mkCmp(OP_EQ, n.a, mkConst(kw, lo));
    }
    if (n.op == OP_ITE) {
      if (isC(n.b) && isC(n.c)) {
        bool eb = nodes[n.b].val == y, ec = nodes[n.c].val == y;
        if (eb && ec) return mkConst(1, 1);
        if (!eb && !ec) return mkConst(1, 0);
        return eb ? n.a : mkNot(n.a);
      }
    }
    if (n.op == OP_ADD && isC(n.b)) return mkCmp(OP_EQ, n.a, mkConst(w, y - nodes[n.b].val));
    if (n.op == OP_XOR && isC(n.b)) return mkCmp(OP_EQ, n.a, mkConst(w, y ^ nodes[n.b].val));
    if (n.op == OP_BITS) { /* keep */ }
    if (n.op == OP_CONCAT) {
      unsigned lw = nodes[n.b].w, hw = nodes[n.a].w; u32 hi = n.a, lo = n.b;
      return mkBin(OP_AND, 1, mkCmp(OP_EQ, hi, mkConst(hw, y >> lw)), mkCmp(OP_EQ, lo, mkConst(lw, y & maskW(lw))));
    }
  }
  if ((op == OP_ULT || op == OP_ULE || op == OP_EQ) && nodes[a].op == OP_ZEXT && nodes[b].op == OP_ZEXT && nodes[nodes[a].a].w == nodes[nodes[b].a].w)
    return mkCmp(op, nodes[a].a, nodes[b].a);
  if ((op == OP_ULT || op == OP_ULE || op == OP_SLT || op == OP_SLE)) {
    unsigned uop = op == OP_SLT ? OP_ULT : op == OP_SLE ? OP_ULE : op;
    if (nodes[a].op == OP_ZEXT && isC(b)) {
      unsigned kw = nodes[nodes[a].a].w;
      auto sy = (op == OP_SLT || op == OP_SLE) ? sx(y, w) : (__int128)0;
      if ((op == OP_SLT || op == OP_SLE) && sy < 0) return mkConst(1, 0);
      if (y > maskW(kw)) return mkConst(1, 1);
      return mkCmp(uop, nodes[a].a, mkConst(kw, y));
    }
    if (nodes[b].op == OP_ZEXT && isC(a)) {
      unsigned kw = nodes[nodes[b].a].w;
      auto sxv = (op == OP_SLT || op == OP_SLE) ? sx(x, w) : (__int128)0;
      if ((op == OP_SLT || op == OP_SLE) && sxv < 0) return mkConst(1, 1);
      if (x > maskW(kw)) return mkConst(1, 0);
      return mkCmp(uop, mkConst(kw, x), nodes[b].a);
    }
    if (isC(b) && op == OP_ULT && y == 0) return mkConst(1, 0);
    if (isC(b) && op == OP_ULT && y == 1) return mkCmp(OP_EQ, a, mkConst(w, 0));
  }
  // real mode: sign test of a double's bit pattern
  if (gReal && nodes[a].op == OP_BITS && isC(b) && ((op == OP_SLT && y == 0) || (op == OP_SLE && y == maskW(64))))
    return mkFCmp(OP_FOLT, nodes[a].a, mkF(0.0));
  if (gReal && nodes[b].op == OP_BITS && isC(a) && ((op == OP_SLT && x == maskW(64)) || (op == OP_SLE && x == 0)))
    return mkNot(mkFCmp(OP_FOLT, nodes[b].a, mkF(0.0)));
  if (gReal && (nodes[a].op == OP_BITS || nodes[b].op == OP_BITS) && op == OP_EQ)
    return mkFCmp(OP_FOEQ, mkFromBits(a), mkFromBits(b));
  return mk(op, 1, false, a, b, 0, 0, r);
}
u32 mkZext(u32 e, unsigned w) {
  auto &n = nodes[e];
  if (n.w == w) return e;
  if (isC(e)) return mkConst(w, n.val);
  if (n.op == OP_ZEXT) return mkZext(n.a, w);
  return mk(OP_ZEXT, w, false, e, 0, 0, 0, n.val);
}
u32 mkSext(u32 e, unsigned w) {
  auto n = nodes[e];
  if (n.w == w) return e;
  if (isC(e)) return mkConst(w, (u128)sx(n.val, n.w));
  if (n.op == OP_ZEXT) return mkZext(n.a, w);
  if (n.op == OP_SEXT) return mkSext(n.a, w);
  return mk(OP_SEXT, w, false, e, 0, 0, 0, (u128)sx(n.val, n.w) & maskW(w));
}
u32 mkExtract(u32 e, unsigned lo, unsigned w) {
  auto n = nodes[e];
  if (lo == 0 && n.w == w) return e;
  u128 v = (n.val >> lo) & maskW(w);
  if (isC(e)) return mkConst(w, v);
  if (n.op == OP_EXTRACT) return mkExtract(n.a, lo + n.aux, w);
  if (n.op == OP_ZEXT || n.op == OP_SEXT) {
    unsigned kw = nodes[n.a].w;
    if (lo + w <= kw) return mkExtract(n.a, lo, w);
    if (n.op == OP_ZEXT && lo >= kw) return mkConst(w, 0);
    if (n.op == OP_ZEXT && lo == 0) return mkZext(n.a, w);
    if (n.op == OP_SEXT && lo == 0) return mkSext(n.a, w);
  }
  if (n.op == OP_CONCAT) {
    unsigned lw = nodes[n.b].w;
    if (lo + w <= lw) return mkExtract(n.b, lo, w);
    if (lo >= lw) return mkExtract(n.a, lo - lw, w);
  }
  if (n.op == OP_AND || n.op == OP_OR || n.op == OP_XOR)
    if (isC(n.b) || w <= 8) { u32 x = mkExtract(n.a, lo, w), y = mkExtract(n.b, lo, w); return mkBin(n.op, w, x, y); }
  if (n.op == OP_ITE && isC(n.b) && isC(n.c)) { u32 x = mkExtract(n.b, lo, w), y = mkExtract(n.c, lo, w); return mkIte(n.a, x, y); }
  if (lo == 0 && (n.op == OP_ADD || n.op == OP_SUB || n.op == OP_MUL) && w >= 8) { u32 x = mkExtract(n.a, 0, w), y = mkExtract(n.b, 0, w); return mkBin(n.op, w, x, y); }
  return mk(OP_EXTRACT, w, false, e, 0, 0, lo, v);
}
u32 mkConcat(u32 hi, u32 lo) {
  auto h = nodes[hi], l = nodes[lo];
  unsigned w = h.w + l.w;
  if (isC(hi) && isC(lo)) return mkConst(w, (h.val << l.w) | l.val);
  if (isC(hi) && h.val == 0) return mkZext(lo, w);
  if (h.op == OP_EXTRACT && l.op == OP_EXTRACT && h.a == l.a && h.aux == l.aux + l.w) return mkExtract(h.a, l.aux, w);
  if (h.op == OP_EXTRACT && h.a == lo && h.aux == l.w) return mkExtract(lo, 0, w);
  return mk(OP_CONCAT, w, false, hi, lo, 0, 0, (h.val << l.w) | l.val);
}
u32 mkIte(u32 c, u32 a, u32 b) {
  if (isC(c)) return nodes[c].val ? a : b;
  if (a == b) return a;
  auto cn = nodes[c];
  if (cn.op == OP_XOR && isC(cn.b)) return mkIte(cn.a, b, a);
  if (nodes[a].w == 1 && !nodes[a].isF) {
    if (isC(a) && isC(b)) return nodes[a].val ? c : mkNot(c);
    if (isC(a)) return nodes[a].val ? mkBin(OP_OR, 1, c, b) : mkBin(OP_AND, 1, mkNot(c), b);
    if (isC(b)) return nodes[b].val ? mkBin(OP_OR, 1, mkNot(c), a) : mkBin(OP_AND, 1, c, a);
  }
  if (isC(a) && isC(b) && !nodes[a].isF && nodes[b].val == 0 && nodes[a].val == 1) return mkZext(c, nodes[a].w);
  return mk(OP_ITE, nodes[a].w, nodes[a].isF, c, a, b, 0, cn.val ? nodes[a].val : nodes[b].val);
}
u32 mkBits(u32 f) {
  auto n = nodes[f];
  if (!n.isF) return f;
  if (isC(f)) return mkConst(64, n.val);
  if (n.op == OP_FROMBITS) return n.a;
  return mk(OP_BITS, 64, false, f, 0, 0, 0, n.val);
}
u32 mkFromBits(u32 b) {
  auto n = nodes[b];
  if (n.isF) return b;
  if (isC(b)) return mk(OP_CONST, 64, true, 0, 0, 0, 0, n.val);
  if (n.op == OP_BITS) return n.a;
  if (n.op == OP_ITE) { u32 x = mkFromBits(n.b), y = mkFromBits(n.c); return mkIte(n.a, x, y); }
  // sign-bit manipulations
  if (n.op == OP_XOR && isC(n.b) && (u64)nodes[n.b].val == 0x8000000000000000ULL) return mkF1(OP_FNEG, mkFromBits(n.a));
  if (n.op == OP_AND && isC(n.b) && (u64)nodes[n.b].val == 0x7fffffffffffffffULL) return mkF1(OP_FABS, mkFromBits(n.a));
  return mk(OP_FROMBITS, 64, true, b, 0, 0, 0, n.val);
}
u32 mkF1(unsigned op, u32 a) {
  double x = fval(a), r = 0;
  switch (op) {
  case OP_FNEG: r = -x; break;
  case OP_FABS: r = std::fabs(x); break;
  case OP_FSQRT: r = std::sqrt(x); break;
  case OP_FFLOOR: r = std::floor(x); break;
  case OP_FCEIL: r = std::ceil(x); break;
  case OP_FTRUNC: r = std::trunc(x); break;
  case OP_FROUND: r = std::round(x); break;
  case OP_FRINT: r = std::nearbyint(x); break;
  case OP_SIN: r = std::sin(x); break;
  case OP_COS: r = std::cos(x); break;
  case OP_TAN: r = std::tan(x); break;
  case OP_EXP: r = std::exp(x); break;
  case OP_LOG: r = std::log(x); break;
  case OP_LOG2: r = std::log2(x); break;
  case OP_ASIN: r = std::asin(x); break;
  case OP_ACOS: r = std::acos(x); break;
  case OP_ATAN: r = std::atan(x); break;
  }
  if (isC(a)) return mkF(r);
  if (op == OP_FNEG && nodes[a].op == OP_FNEG) return nodes[a].a;
  if (op == OP_FABS && (nodes[a].op == OP_FNEG)) return mkF1(OP_FABS, nodes[a].a);
  if (op == OP_FABS && nodes[a].op == OP_FABS) return a;
  return mk(op, 64, true, a, 0, 0, 0, fbits(r));
}
u32 mkF2(unsigned op, u32 a, u32 b) {
  double x = fval(a), y = fval(b), r = 0;
  switch (op) {
  case OP_FADD: r = x + y; break;
  case OP_FSUB: r = x - y; break;
  case OP_FMUL: r = x * y; break;
  case OP_FDIV: r = x / y; break;
  case OP_FREM: r = std::fmod(x, y); break;
  case OP_FMAX: r = std::fmax(x, y); break;
  case OP_FMIN: r = std::fmin(x, y); break;
  case OP_COPYSIGN: r = std::copysign(x, y); break;
  case OP_ATAN2: r = std::atan2(x, y); break;
  case OP_POW: r = std::pow(x, y); break;
  case OP_HYPOT: r = std::hypot(x, y); break;
  }
  if (isC(a) && isC(b)) return mkF(r);
  if (gReal) {
    if (op == OP_FMUL) {
      if (isC(a)) { std::swap(a, b); std::swap(x, y); }
      if (isC(b) && y == 0) return mkF(0);
      if (isC(b) && y == 1) return a;
      if (isC(b) && y == -1) return mkF1(OP_FNEG, a);
    }
    if (op == OP_FADD) { if (isC(a) && x == 0) return b; if (isC(b) && y == 0) return a; }
    if (op == OP_FSUB) { if (isC(b) && y == 0) return a; if (isC(a) && x == 0) return mkF1(OP_FNEG, b); }
    if (op == OP_FDIV && isC(b) && y == 1) return a;
  }
  return mk(op, 64, true, a, b, 0, 0, fbits(r));
}
u32 mkFCmp(unsigned op, u32 a, u32 b) {
  double x = fval(a), y = fval(b);
  bool r = false;
  switch (op) {
  case OP_FOEQ: r = x == y; break;
  case OP_FOLT: r = x < y; break;
  case OP_FOLE: r = x <= y; break;
  case OP_FUNO: r = std::isnan(x) || std::isnan(y); break;
  }
  if (isC(a) && isC(b)) return mkConst(1, r);
  if (gReal && op == OP_FUNO) return mkConst(1, 0);
  if (op == OP_FUNO) {
    if (isC(b) && !std::isnan(y)) b = a;
    if (isC(a) && !std::isnan(x)) a = b;
  }
  if (gReal && a == b) return mkConst(1, op != OP_FOLT);
  return mk(op, 1, false, a, b, 0, 0, r);
}
void resetExprs() { if (nodes.size() == 1) return; nodes.resize(1); std::fill(table.begin(), table.end(), 0); }

// concrete re-evaluation of all nodes below `top` under other input values
void evalNodes(const std::vector<u64> &vals, u32 top, std::vector<u128> &o) {
  o.assign(top + 1, 0);
  auto D = [&](u32 e) { u64 b = (u64)o[e]; double d; memcpy(&d, &b, 8); return d; };
  for (u32 i = 1; i <= top; ++i) {
    auto &n = nodes[i];
    u128 x = o[n.a], y = o[n.b], m = maskW(n.w), r = 0;
    unsigned w = n.w, aw = n.a ? nodes[n.a].w : 0;
    switch (n.op) {
    case OP_CONST: r = n.val; break;
    case OP_VAR: r = n.aux < vals.size() ? (u128)vals[n.aux] & m : n.val; break;
    case OP_ADD: r = x + y; break;
    case OP_SUB: r = x - y; break;
    case OP_MUL: r = x * y; break;
    case OP_UDIV: r = y ? x / y : m; break;
    case OP_UREM: r = y ? x % y : x; break;
    case OP_SDIV: { auto sy = sx(y, w), s = sx(x, w); r = sy ? (sy == -1 ? (u128)(-(u128)s) : (u128)(s / sy)) : (s < 0 ? 1 : m); break; }
    case OP_SREM: { auto sy = sx(y, w), s = sx(x, w); r = sy ? (sy == -1 ? 0 : (u128)(s % sy)) : x; break; }
    case OP_SHL: r = y >= w ? 0 : x << (unsigned)y; break;
    case OP_LSHR: r = y >= w ? 0 : x >> (unsigned)y; break;
    case OP_ASHR: r = (u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)); break;
    case OP_AND: r = x & y; break;
    case OP_OR: r = x | y; break;
    case OP_XOR: r = x ^ y; break;
    case OP_EQ: r = x == y; break;
    case OP_ULT: r = x < y; break;
    case OP_ULE: r = x <= y; break;
    case OP_SLT: r = sx(x, aw) < sx(y, aw); break;
    case OP_SLE: r = sx(x, aw) <= sx(y, aw); break;
    case OP_ZEXT: case OP_BITS: case OP_FROMBITS: r = x; break;
    case OP_SEXT: r = (u128)sx(x, aw); break;
    case OP_EXTRACT: r = x >> n.aux; break;
    case OP_CONCAT: r = (x << nodes[n.b].w) | y; break;
    case OP_ITE: r = x ? y : o[n.c]; break;
    case OP_FADD: r = fbits(D(n.a) + D(n.b)); break;
    case OP_FSUB: r = fbits(D(n.a) - D(n.b)); break;
    case OP_FMUL: r = fbits(D(n.a) * D(n.b)); break;
    case OP_FDIV: r = fbits(D(n.a) / D(n.b)); break;
    case OP_FREM: r = fbits(std::fmod(D(n.a), D(n.b))); break;
    case OP_FMAX: r = fbits(std::fmax(D(n.a), D(n.b))); break;
    case OP_FMIN: r = fbits(std::fmin(D(n.a), D(n.b))); break;
    case OP_COPYSIGN: r = fbits(std::copysign(D(n.a), D(n.b))); break;
    case OP_ATAN2: r = fbits(std::atan2(D(n.a), D(n.b))); break;
    case OP_POW: r = fbits(std::pow(D(n.a), D(n.b))); break;
    case OP_HYPOT: r = fbits(std::hypot(D(n.a), D(n.b))); break;
    case OP_FNEG: r = fbits(-D(n.a)); break;
    case OP_FABS: r = fbits(std::fabs(D(n.a))); break;
    case OP_FSQRT: r = fbits(std::sqrt(D(n.a))); break;
    case OP_FFLOOR: r = fbits(std::floor(D(n.a))); break;
    case OP_FCEIL: r = fbits(std::ceil(D(n.a))); break;
    case OP_FTRUNC: r = fbits(std::trunc(D(n.a))); break;
    case OP_FROUND: r = fbits(std::round(D(n.a))); break;
    case OP_FRINT: r = fbits(std::nearbyint(D(n.a))); break;
    case OP_SIN: r = fbits(std::sin(D(n.a))); break;
    case OP_COS: r = fbits(std::cos(D(n.a))); break;
    case OP_TAN: r = fbits(std::tan(D(n.a))); break;
    case OP_EXP: r = fbits(std::exp(D(n.a))); break;
    case OP_LOG: r = fbits(std::log(D(n.a))); break;
    case OP_LOG2: r = fbits(std::log2(D(n.a))); break;
    case OP_ASIN: r = fbits(std::asin(D(n.a))); break;
    case OP_ACOS: r = fbits(std::acos(D(n.a))); break;
    case OP_ATAN: r = fbits(std::atan(D(n.a))); break;
    case OP_FOEQ: r = D(n.a) == D(n.b); break;
    case OP_FOLT: r = D(n.a) < D(n.b); break;
    case OP_FOLE: r = D(n.a) <= D(n.b); break;
    case OP_FUNO: r = std::isnan(D(n.a)) || std::isnan(D(n.b)); break;
    case OP_SITOFP: r = fbits((double)(int64_t)sx(x, aw)); break;
    case OP_UITOFP: r = fbits((double)(u64)x); break;
    case OP_FPTOSI: { double d = D(n.a); r = std::fabs(d) < 9e18 ? (u128)(__int128)(int64_t)d : 0; break; }
    case OP_FPTOUI: { double d = D(n.a); r = d > -1 && d < 1.8e19 ? (u128)(u64)d : 0; break; }
    default: r = n.val;
    }
    o[i] = r & m;
  }
}
