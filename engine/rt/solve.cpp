// Path solving: walks the recorded decisions, asks z3 for every alternative and
// for the negation of every assertion.
#include "expr.h"
#include "real.h"
#include "runtime.h"
#include <z3.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <unistd.h>
Z3_context Z = nullptr;
static Z3_solver S = nullptr;
SolveStats sstats;
unsigned gQueryTimeout = 20000;
u32 gMaxConc = 4096;
static Z3_sort F64, RNA;
static std::vector<Z3_ast> memo;
static bool hasFP = false;

static void err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(97); }
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(Z, err);
  F64 = Z3_mk_fpa_sort_double(Z);
}
Z3_ast zbv(unsigned w, u128 v) {
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64)v, Z3_mk_bv_sort(Z, w));
  return Z3_mk_concat(Z, zbv(w - 64, v >> 64), zbv(64, (u64)v));
}
Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(Z, b, zbv(1, 1), zbv(1, 0)); }
static Z3_ast asBV(u32 e) { Z3_ast a = tr(e); return nodes[e].w == 1 ? b2bv(a) : a; }
static Z3_ast fromBV1(Z3_ast a) { return Z3_mk_eq(Z, a, zbv(1, 1)); }
static Z3_ast tr0(u32 e) {
  auto n = nodes[e];
  if (n.isF && gReal) return realAst(e);
  unsigned w = n.w;
  auto A = [&] { return tr(n.a); };
  auto B = [&] { return tr(n.b); };
  Z3_ast rne = nullptr;
  auto RNE = [&] { if (!rne) rne = Z3_mk_fpa_rne(Z); return rne; };
  switch (n.op) {
  case OP_CONST:
    if (n.isF) return Z3_mk_fpa_to_fp_bv(Z, zbv(64, n.val), F64);
    if (w == 1) return n.val ? Z3_mk_true(Z) : Z3_mk_false(Z);
    return zbv(w, n.val);
  case OP_VAR: {
    char nm[32]; snprintf(nm, 32, "v%u", (unsigned)n.aux);
    auto s = Z3_mk_string_symbol(Z, nm);
    if (n.isF) { Z3_ast b = Z3_mk_const(Z, s, Z3_mk_bv_sort(Z, 64)); return Z3_mk_fpa_to_fp_bv(Z, b, F64); }
    return Z3_mk_const(Z, s, w == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, w));
  }
  case OP_AND: case OP_OR: case OP_XOR:
    if (w == 1) {
      Z3_ast a[2] = {A(), B()};
      return n.op == OP_AND ? Z3_mk_and(Z, 2, a) : n.op == OP_OR ? Z3_mk_or(Z, 2, a) : isC(n.b) && nodes[n.b].val ? Z3_mk_not(Z, a[0]) : Z3_mk_xor(Z, a[0], a[1]);
    }
    return n.op == OP_AND ? Z3_mk_bvand(Z, A(), B()) : n.op == OP_OR ? Z3_mk_bvor(Z, A(), B()) : Z3_mk_bvxor(Z, A(), B());
#define BVOP(o, f) case o: { Z3_ast r = f(Z, asBV(n.a), asBV(n.b)); return w == 1 ? fromBV1(r) : r; }
    BVOP(OP_ADD, Z3_mk_bvadd) BVOP(OP_SUB, Z3_mk_bvsub) BVOP(OP_MUL, Z3_mk_bvmul) BVOP(OP_UDIV, Z3_mk_bvudiv)
    BVOP(OP_SDIV, Z3_mk_bvsdiv) BVOP(OP_UREM, Z3_mk_bvurem) BVOP(OP_SREM, Z3_mk_bvsrem) BVOP(OP_SHL, Z3_mk_bvshl)
    BVOP(OP_LSHR, Z3_mk_bvlshr) BVOP(OP_ASHR, Z3_mk_bvashr)
  case OP_EQ: return Z3_mk_eq(Z, A(), B());
  case OP_ULT: return Z3_mk_bvult(Z, asBV(n.a), asBV(n.b));
  case OP_ULE: return Z3_mk_bvule(Z, asBV(n.a), asBV(n.b));
  case OP_SLT: return Z3_mk_bvslt(Z, asBV(n.a), asBV(n.b));
  case OP_SLE: return Z3_mk_bvsle(Z, asBV(n.a), asBV(n.b));
  case OP_ZEXT:
    if (nodes[n.a].w == 1) return Z3_mk_ite(Z, A(), zbv(w, 1), zbv(w, 0));
    return Z3_mk_zero_ext(Z, w - nodes[n.a].w, A());
  case OP_SEXT:
    if (nodes[n.a].w == 1) return Z3_mk_ite(Z, A(), zbv(w, ~(u128)0 & maskW(w)), zbv(w, 0));
    return Z3_mk_sign_ext(Z, w - nodes[n.a].w, A());
  case OP_EXTRACT: {
    Z3_ast r = Z3_mk_extract(Z, n.aux + w - 1, n.aux, asBV(n.a));
    return w == 1 ? fromBV1(r) : r;
  }
  case OP_CONCAT: return Z3_mk_concat(Z, asBV(n.a), asBV(n.b));
  case OP_ITE: return Z3_mk_ite(Z, A(), B(), tr(n.c));
  case OP_FOEQ: if (gReal) return realCmp(OP_FOEQ, n.a, n.b); return Z3_mk_fpa_eq(Z, A(), B());
  case OP_FOLT: if (gReal) return realCmp(OP_FOLT, n.a, n.b); return Z3_mk_fpa_lt(Z, A(), B());
  case OP_FOLE: if (gReal) return realCmp(OP_FOLE, n.a, n.b); return Z3_mk_fpa_leq(Z, A(), B());
  case OP_FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(Z, A()), Z3_mk_fpa_is_nan(Z, B())}; return Z3_mk_or(Z, 2, a); }
  case OP_FADD: return Z3_mk_fpa_add(Z, RNE(), A(), B());
  case OP_FSUB: return Z3_mk_fpa_sub(Z, RNE(), A(), B());
  case OP_FMUL: return Z3_mk_fpa_mul(Z, RNE(), A(), B());
  case OP_FDIV: return Z3_mk_fpa_div(Z, RNE(), A(), B());
  case OP_FNEG: return Z3_mk_fpa_neg(Z, A());
  case OP_FABS: return Z3_mk_fpa_abs(Z, A());
  case OP_FSQRT: return Z3_mk_fpa_sqrt(Z, RNE(), A());
  case OP_FFLOOR: return Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtn(Z), A());
  case OP_FCEIL: return Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtp(Z), A());
  case OP_FTRUNC: return Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtz(Z), A());
  case OP_FROUND: return Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rna(Z), A());
  case OP_FRINT: return Z3_mk_fpa_round_to_integral(Z, RNE(), A());
  case OP_FMAX: return Z3_mk_fpa_max(Z, A(), B());
  case OP_FMIN: return Z3_mk_fpa_min(Z, A(), B());
  case OP_COPYSIGN: {
    Z3_ast m = Z3_mk_bvor(Z, Z3_mk_bvand(Z, Z3_mk_fpa_to_ieee_bv(Z, A()), zbv(64, ~(1ULL << 63))), Z3_mk_bvand(Z, Z3_mk_fpa_to_ieee_bv(Z, B()), zbv(64, 1ULL << 63)));
    return Z3_mk_fpa_to_fp_bv(Z, m, F64);
  }
  case OP_SITOFP: return Z3_mk_fpa_to_fp_signed(Z, RNE(), asBV(n.a), F64);
  case OP_UITOFP: return Z3_mk_fpa_to_fp_unsigned(Z, RNE(), asBV(n.a), F64);
  case OP_FPTOSI: if (gReal) return realToInt(n.a, w); return Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), A(), w);
  case OP_FPTOUI: if (gReal) return realToInt(n.a, w); return Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), A(), w);
  case OP_BITS: if (gReal) { unsupported("bits of a real"); return zbv(64, n.val); } return Z3_mk_fpa_to_ieee_bv(Z, A());
  case OP_FROMBITS: return Z3_mk_fpa_to_fp_bv(Z, A(), F64);
  case OP_FPCLASS: {
    Z3_ast a = A(), neg = Z3_mk_fpa_is_negative(Z, a), r = Z3_mk_false(Z);
    auto add = [&](Z3_ast c, int sign) { Z3_ast x = c; if (sign >= 0) { Z3_ast t[2] = {c, sign ? neg : Z3_mk_not(Z, neg)}; x = Z3_mk_and(Z, 2, t); } Z3_ast o[2] = {r, x}; r = Z3_mk_or(Z, 2, o); };
    if (n.aux & 3) add(Z3_mk_fpa_is_nan(Z, a), -1);
    if (n.aux & 4) add(Z3_mk_fpa_is_infinite(Z, a), 1);
    if (n.aux & 8) add(Z3_mk_fpa_is_normal(Z, a), 1);
    if (n.aux & 0x10) add(Z3_mk_fpa_is_subnormal(Z, a), 1);
    if (n.aux & 0x20) add(Z3_mk_fpa_is_zero(Z, a), 1);
    if (n.aux & 0x40) add(Z3_mk_fpa_is_zero(Z, a), 0);
    if (n.aux & 0x80) add(Z3_mk_fpa_is_subnormal(Z, a), 0);
    if (n.aux & 0x100) add(Z3_mk_fpa_is_normal(Z, a), 0);
    if (n.aux & 0x200) add(Z3_mk_fpa_is_infinite(Z, a), 0);
    return r;
  }
  default: break;
  }
  // no theory for it: an unconstrained value (over-approximation, noted)
  char why[64]; snprintf(why, 64, "uninterpreted op %u", n.op);
  unsupported(why);
  char nm[32]; snprintf(nm, 32, "u%u", e);
  auto s = Z3_mk_string_symbol(Z, nm);
  if (n.isF) return Z3_mk_fpa_to_fp_bv(Z, Z3_mk_const(Z, s, Z3_mk_bv_sort(Z, 64)), F64);
  return Z3_mk_const(Z, s, w == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, w));
}
Z3_ast tr(u32 e) {
  if (memo.size() <= e) memo.resize(nodes.size() + 1, nullptr);
  if (memo[e]) return memo[e];
  // children first, iteratively, to keep the stack shallow
  std::vector<u32> st{e};
  while (!st.empty()) {
    u32 x = st.back();
    if (memo[x]) { st.pop_back(); continue; }
    auto &n = nodes[x];
    bool ready = true;
    if (n.op != OP_CONST && n.op != OP_VAR && !(n.isF && gReal) && !(gReal && (n.op == OP_FOEQ || n.op == OP_FOLT || n.op == OP_FOLE || n.op == OP_FPTOSI || n.op == OP_FPTOUI || n.op == OP_BITS)))
      for (u32 c : {n.a, n.b, n.c}) if (c && !memo[c]) { st.push_back(c); ready = false; }
    if (!ready) continue;
    Z3_ast r = tr0(x);
    if (memo.size() < nodes.size()) memo.resize(nodes.size() + 1, nullptr);
    memo[x] = r;
    st.pop_back();
  }
  return memo[e];
}
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static Z3_lbool check() {
  realFlush(S);
  double t = nowS();
  auto r = Z3_solver_check(Z, S);
  sstats.time += nowS() - t;
  sstats.queries++;
  if (r == Z3_L_TRUE) sstats.sat++;
  else if (r == Z3_L_FALSE) sstats.unsat++;
  else sstats.unknown++;
  if (getenv("SYM_TRACE")) fprintf(stderr, "  query %.3fs %d\n", nowS() - t, (int)r);
  return r;
}
static std::vector<u64> modelVals(size_t nv) {
  Z3_model m = Z3_solver_get_model(Z, S);
  Z3_model_inc_ref(Z, m);
  std::vector<u64> r;
  for (size_t i = 0; i < nv; ++i) {
    auto &v = vars[i];
    u64 val = v.value;
    if (v.isF && gReal) val = realModel(m, i);
    else {
      char nm[32]; snprintf(nm, 32, "v%u", (unsigned)i);
      auto s = Z3_mk_string_symbol(Z, nm);
      Z3_ast c = Z3_mk_const(Z, s, v.w == 1 && !v.isF ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, v.w)), o;
      if (Z3_model_eval(Z, m, c, false, &o)) {
        auto k = Z3_get_ast_kind(Z, o);
        if (v.w == 1 && !v.isF) {
          auto b = Z3_get_bool_value(Z, o);
          if (b != Z3_L_UNDEF) val = b == Z3_L_TRUE;
        } else if (k == Z3_NUMERAL_AST) { uint64_t x; if (Z3_get_numeral_uint64(Z, o, &x)) val = x; }
      }
    }
    r.push_back(val);
  }
  Z3_model_dec_ref(Z, m);
  return r;
}
u64 decHash(u64 h, const Dec &d, u64 outcome) {
  auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 31; };
  mix(d.kind); mix(nodes[d.e].sh); mix(outcome);
  return h;
}
static void push() { realFlush(S); Z3_solver_push(Z, S); realPush(); }
static void pop() { Z3_solver_pop(Z, S, 1); realPop(); }
static void add(Z3_ast a) { realFlush(S); Z3_solver_assert(Z, S, a); }
static Z3_ast swCond(const Dec &d, u32 grp) {
  unsigned w = nodes[d.e].w;
  std::vector<Z3_ast> v;
  for (u32 i = 0; i < d.nc; ++i)
    if (grp == 0 ? d.cg[i] != 0 : d.cg[i] == grp) v.push_back(w == 1 ? ((d.cv[i] & 1) ? tr(d.e) : Z3_mk_not(Z, tr(d.e))) : Z3_mk_eq(Z, tr(d.e), zbv(w, d.cv[i] & (u64)maskW(w))));
  Z3_ast o = v.empty() ? Z3_mk_false(Z) : v.size() == 1 ? v[0] : Z3_mk_or(Z, v.size(), v.data());
  return grp == 0 ? Z3_mk_not(Z, o) : o;
}
static Z3_ast concEq(const Dec &d, u64 v) {
  auto &n = nodes[d.e];
  if (n.isF) {
    if (gReal) return realEqConst(d.e, v);
    // equality of bit patterns (NaNs identified)
    return Z3_mk_eq(Z, tr(d.e), Z3_mk_fpa_to_fp_bv(Z, zbv(64, v), F64));
  }
  if (n.w == 1) return v ? tr(d.e) : Z3_mk_not(Z, tr(d.e));
  if (gReal && (n.op == OP_FPTOSI || n.op == OP_FPTOUI)) return realIntIs(n.a, n.op == OP_FPTOSI && n.w < 64 ? (int64_t)(v << (64 - n.w)) >> (64 - n.w) : (int64_t)v);
  return Z3_mk_eq(Z, tr(d.e), zbv(n.w, v & (u64)maskW(n.w)));
}
static Z3_ast concMargin(const Dec &d, u64 v) { // stay clear of the borders of an integer part
  auto &n = nodes[d.e];
  if (n.op != OP_FPTOSI && n.op != OP_FPTOUI) return nullptr;
  return realIntIs(n.a, (int64_t)v, true);
}
void solvePath(const Job &cur, Sink &sink) {
  // expected prefix
  u64 h = 0;
  std::vector<u64> ph(decs.size() + 1);
  for (size_t i = 0; i < decs.size(); ++i) {
    ph[i] = h;
    auto &d = decs[i];
    u64 out = d.kind == D_CONC || d.kind == D_OBJ ? d.val : d.kind == D_SWITCH ? d.grp : d.taken;
    if (d.kind == D_NEAR) out = 0;
    h = decHash(h, d, out);
  }
  ph[decs.size()] = h;
  if (getenv("SYM_TRACE")) { fprintf(stderr, "path bound %u expect %lx\n", cur.bound, cur.hash); for (size_t i = 0; i < decs.size(); ++i) fprintf(stderr, "  d%zu kind %d e %u op %d taken %d val %lu grp %u h %lx\n", i, decs[i].kind, decs[i].e, nodes[decs[i].e].op, decs[i].taken, decs[i].val, decs[i].grp, ph[i + 1]); }
  bool diverged = false;
  if (cur.bound) {
    if (decs.size() < cur.bound || (cur.hash && ph[cur.bound] != cur.hash)) {
      sstats.diverged++; diverged = true;
      if (getenv("SYM_DIV")) {
        size_t k = 0;
        std::string t;
        for (auto &v : vars) { char b[96]; double dd; memcpy(&dd, &v.value, 8); snprintf(b, 96, " %s=%lu(%.17g)", v.name.c_str(), (unsigned long)v.value, v.isF ? dd : 0.0); t += b; }
        (void)k;
        fprintf(stderr, "DIVERGED bound %u of %zu:%s\n", cur.bound, decs.size(), t.c_str());
        for (size_t i = 0; i < decs.size() && i < cur.bound + 2; ++i) fprintf(stderr, "  d%zu kind %d op %d taken %d\n", i, decs[i].kind, nodes[decs[i].e].op, decs[i].taken);
      }
    }
  }
  hasFP = false;
  for (u32 i = 1; i < nodes.size(); ++i) if (nodes[i].isF && nodes[i].op != OP_CONST) { hasFP = true; break; }
  S = hasFP ? Z3_mk_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
  Z3_solver_inc_ref(Z, S);
  auto P = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, P);
  Z3_params_set_uint(Z, P, Z3_mk_string_symbol(Z, "timeout"), gQueryTimeout);
  Z3_params_set_uint(Z, P, Z3_mk_string_symbol(Z, "random_seed"), 1);
  if (gExact) {
    if (getenv("PM")) Z3_params_set_uint(Z, P, Z3_mk_string_symbol(Z, "arith.propagation_mode"), atoi(getenv("PM")));
    if (getenv("AS")) Z3_params_set_uint(Z, P, Z3_mk_string_symbol(Z, "arith.solver"), atoi(getenv("AS")));
  }
  Z3_solver_set_params(Z, S, P);
  realInit();
  std::vector<Z3_ast> margins;
  size_t rv = 0; // variables whose range has been asserted
  for (size_t i = 0; i < decs.size(); ++i) {
    Dec &d = decs[i];
    for (; rv < d.nv; ++rv) {
      auto &v = vars[rv];
      if (!v.hasRange) continue;
      if (v.isF && gReal) realRange(S, rv);
      else if (!v.isF) add(Z3_mk_bvule(Z, asBV(v.expr), zbv(v.w, v.hi)));
      else { add(Z3_mk_fpa_leq(Z, tr(mkF(v.flo)), tr(v.expr))); add(Z3_mk_fpa_leq(Z, tr(v.expr), tr(mkF(v.fhi)))); }
    }
    bool expand = i >= cur.bound && !diverged;
    // in real mode prefer inputs that stay clear of every comparison's boundary,
    // so that rounding in the concrete run cannot change the path
    auto follows = [&](const std::vector<u64> &v, u64 outcome) { // does the concrete (double) run take this path?
      u32 top = 0;
      for (size_t k = 0; k <= i; ++k) top = std::max(top, decs[k].e);
      std::vector<u128> o;
      evalNodes(v, top, o);
      for (size_t k = 0; k <= i; ++k) {
        auto &dk = decs[k];
        if (dk.kind == D_BRANCH || dk.kind == D_ASSUME) { if ((bool)o[dk.e] != (k == i && outcome != ~0ULL ? (bool)outcome : dk.taken)) return false; }
        else if (dk.kind == D_CONC) { if (k < i) { if (o[dk.e] != nodes[dk.e].val) return false; } else if (outcome != ~0ULL && !nodes[dk.e].isF && (u64)o[dk.e] != (outcome & (u64)maskW(nodes[dk.e].w))) return false; }
      }
      return true;
    };
    bool okPath = true;
    auto robust = [&](size_t nv, u32 cond, u64 outcome) {
      okPath = true;
      auto fallback = modelVals(nv);
      if (!gReal || (margins.empty() && !cond)) return fallback;
      auto un = sstats.unknown;
      bool got = false;
      for (int t = 0; t < 4 && !got; ++t) {
        push();
        if (t != 1) for (auto m : margins) add(m);
        if (cond && t < 3) if (auto m = realMargin(cond)) add(m);
        if (t) for (size_t k = 0; k < nv; ++k) if (vars[k].isF) { // stay away from the inputs tried before
          Z3_ast x = realAst(vars[k].expr); double last; memcpy(&last, &fallback[k], 8);
          if (t == 2) { Z3_ast ne = Z3_mk_not(Z, Z3_mk_eq(Z, x, realAst(mkF(last)))); push(); add(ne); if (check() != Z3_L_TRUE) pop(); else { auto c = modelVals(nv); if (follows(c, outcome)) { fallback = c; got = true; } pop(); if (got) break; } }
        }
        if (!got && check() == Z3_L_TRUE) { auto c = modelVals(nv); if (follows(c, outcome)) { fallback = c; got = true; } }
        pop();
      }
      sstats.unknown = un;
      okPath = got || follows(fallback, outcome);
      return fallback;
    };
    auto emit = [&](u64 outcome, size_t nv) {
      Job j; j.vals = robust(nv, d.kind == D_BRANCH || d.kind == D_ASSUME ? d.e : 0, d.kind == D_BRANCH || d.kind == D_ASSUME || (d.kind == D_CONC && gReal) ? outcome : ~0ULL);
      if (!okPath) { sstats.boundary++; return; }
      j.bound = i + 1; j.hash = decHash(ph[i], d, outcome); sstats.alts++;
      if (getenv("SYM_TRACE")) { fprintf(stderr, "  emit h %lx:", j.hash); for (auto x : j.vals) { double dd; memcpy(&dd, &x, 8); fprintf(stderr, " %lu/%.17g", x, dd); } fprintf(stderr, "\n"); if (getenv("SYM_MODEL")) fprintf(stderr, "%s\n", Z3_solver_to_string(Z, S)); }
      sink.job(j); };
    switch (d.kind) {
    case D_BRANCH: case D_ASSUME: {
      Z3_ast t = tr(d.e), c = d.taken ? t : Z3_mk_not(Z, t);
      if (expand && !(d.kind == D_ASSUME && d.taken)) {
        push(); add(d.taken ? Z3_mk_not(Z, t) : t);
        if (check() == Z3_L_TRUE) emit(!d.taken, d.nv);
        pop();
      }
      add(c);
      realNotePath(d.e, d.taken);
      if (gReal) if (auto m = realMargin(d.e)) margins.push_back(m);
      break;
    }
    case D_SWITCH: {
      if (expand) {
        u32 mx = 0;
        for (u32 k = 0; k < d.nc; ++k) mx = std::max(mx, d.cg[k]);
        for (u32 g = 0; g <= mx; ++g) {
          if (g == d.grp) continue;
          push(); add(swCond(d, g));
          if (check() == Z3_L_TRUE) emit(g, d.nv);
          pop();
        }
      }
      add(swCond(d, d.grp));
      break;
    }
    case D_OBJ: {
      auto in = [&](u64 lo, u64 n) { return Z3_mk_bvule(Z, Z3_mk_bvsub(Z, tr(d.e), zbv(64, lo)), zbv(64, n)); };
      if (expand) {
        push(); add(Z3_mk_not(Z, in(d.val, d.site)));
        u32 cnt = 0;
        while (check() == Z3_L_TRUE) {
          if (++cnt > gMaxConc) { sstats.capped++; break; }
          Z3_model m = Z3_solver_get_model(Z, S);
          Z3_model_inc_ref(Z, m);
          Z3_ast o; uint64_t v = 0;
          Z3_model_eval(Z, m, tr(d.e), true, &o);
          Z3_get_numeral_uint64(Z, o, &v);
          Z3_model_dec_ref(Z, m);
          u64 lo, hi;
          if (findObject(v, lo, hi) && v + d.grp <= hi) { emit(lo, d.nv); add(Z3_mk_not(Z, in(lo, hi - lo - d.grp))); }
          else { emit(v, d.nv); sstats.oob++; if (cnt > 256) { sstats.capped++; break; } add(Z3_mk_not(Z, Z3_mk_eq(Z, tr(d.e), zbv(64, v)))); }
        }
        pop();
      }
      add(in(d.val, d.site));
      break;
    }
    case D_CONC: {
      Z3_ast eq = concEq(d, d.val);
      if (expand) {
        push(); add(Z3_mk_not(Z, eq));
        u32 cnt = 0;
        while (check() == Z3_L_TRUE) {
          if (++cnt > gMaxConc) { sstats.capped++; break; }
          Z3_model m = Z3_solver_get_model(Z, S);
          Z3_model_inc_ref(Z, m);
          Z3_ast o; u64 v = 0;
          if (nodes[d.e].isF) {
            if (gReal) { v = 0; }
            else { Z3_model_eval(Z, m, Z3_mk_fpa_to_ieee_bv(Z, tr(d.e)), true, &o); uint64_t x = 0; Z3_get_numeral_uint64(Z, o, &x); v = x; }
          } else {
            Z3_model_eval(Z, m, tr(d.e), true, &o);
            if (nodes[d.e].w == 1) v = Z3_get_bool_value(Z, o) == Z3_L_TRUE;
            else { uint64_t x = 0; Z3_get_numeral_uint64(Z, o, &x); v = x; }
          }
          Z3_model_dec_ref(Z, m);
          if (nodes[d.e].isF && gReal) { emit(~0ULL, d.nv); sstats.capped++; break; }
          if (getenv("SYM_TRACE")) { fprintf(stderr, "conc alt %lu: ", v); for (auto x : modelVals(d.nv)) fprintf(stderr, "%lu ", x); fprintf(stderr, "\n"); }
          const bool iv = gReal && !nodes[d.e].isF;
          if (iv) {
            push(); add(concEq(d, v));
            Z3_ast mg = concMargin(d, v);
            if (mg) { push(); add(mg); if (check() == Z3_L_TRUE) { emit(v, d.nv); pop(); pop(); add(Z3_mk_not(Z, concEq(d, v))); continue; } pop(); }
            if (check() != Z3_L_TRUE) { pop(); add(Z3_mk_not(Z, concEq(d, v))); continue; }
          }
          emit(v, d.nv);
          if (iv) pop();
          add(Z3_mk_not(Z, concEq(d, v)));
        }
        pop();
      }
      add(eq);
      if (gReal && !nodes[d.e].isF) if (auto m = concMargin(d, d.val)) margins.push_back(m);
      break;
    }
    case D_ASSERT: {
      Z3_ast t = tr(d.e);
      if (!d.taken) { // real mode only: concrete rounding disagreed; let the solver decide
        push(); add(Z3_mk_not(Z, t)); sstats.asserts++;
        auto r = check();
        if (r == Z3_L_TRUE) { auto v = robust(d.nv, d.e, ~0ULL); sink.violation("assert", d.msg, v); }
        pop();
        if (!gReal && expand) { push(); add(t); if (check() == Z3_L_TRUE) emit(1, d.nv); pop(); }
        add(t);
        break;
      }
      if (i >= cur.bound || diverged) {
        push(); add(Z3_mk_not(Z, t)); sstats.asserts++;
        if (check() == Z3_L_TRUE) sink.violation("assert", d.msg, robust(d.nv, d.e, ~0ULL));
        pop();
      }
      add(t);
      break;
    }
    case D_NEAR: {
      sstats.asserts++;
      int r = realNear(d.e, d.e2, d.tol); // 1 proven, 0 needs the solver
      if (r == 1) { sstats.identities++; break; }
      push();
      add(realNearNeg(d.e, d.e2, d.tol));
      auto q = check();
      if (q == Z3_L_TRUE) sink.violation("assert", d.msg, robust(d.nv, 0, ~0ULL));
      pop();
      break;
    }
    }
  }
}
