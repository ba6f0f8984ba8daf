// Real mode: doubles as real numbers, decided over polynomials in the symbolic
// inputs, cosines/sines of base angles (c^2+s^2=1) and sqrt(1/2).
#include "real.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
using Q = boost::multiprecision::cpp_rational;
using BI = boost::multiprecision::cpp_int;
namespace {
enum AK : u8 { A_VAR, A_COS, A_SIN, A_Q, A_PI, A_OPQ };
struct Atom { AK k; u32 ref; Z3_ast z; };
std::vector<Atom> atoms;
using Mono = std::vector<std::pair<u32, u32>>;
using Poly = std::map<Mono, Q>;
std::unordered_map<u32, u32> varAtom; // node -> atom (variables and opaque terms)
struct Base { double kv = 0; u32 node; u64 D; u32 c, s; bool made; Q lin; double cval; };
std::vector<Base> bases;
std::map<u32, u32> baseOf; // node -> base index
std::unordered_map<u32, Poly> memoP;
u32 atomQ, atomPI;
std::vector<Z3_ast> side;
size_t sideBase, sideTmp;
int depth_;
Z3_sort RS;
struct Pin { Q val; bool isPi; double eps; }; // value (as multiple of pi if isPi)
std::map<u32, Pin> pins; // node -> pin
std::map<u32, u64> denom;
std::map<double, u32> cbase; // constant angles -> base

Z3_ast zq(const Q &q) {
  std::string s = boost::multiprecision::numerator(q).str() + "/" + boost::multiprecision::denominator(q).str();
  return Z3_mk_numeral(Z, s.c_str(), RS);
}
Q dq(double d) { // exact
  if (d == 0 || !std::isfinite(d)) return Q(0);
  int e; double m = std::frexp(d, &e);
  long long i = (long long)std::ldexp(m, 53); e -= 53;
  Q r = Q(BI(i));
  if (e > 0) r *= Q(BI(1) << e); else r /= Q(BI(1) << -e);
  return r;
}
// nearby simple rational (denominator <= 4096) if within 1e-15 relative
bool simple(double d, Q &out, double tol = 4e-16) {
  for (int den : {1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 32, 64, 100, 128, 256, 1000, 1024, 4096}) {
    double x = d * den, r = std::round(x);
    if (std::fabs(r) < 1e9 && std::fabs(x - r) <= tol * std::max(1.0, std::fabs(x))) { out = Q(BI((long long)r), BI(den)); return true; }
  }
  return false;
}
bool piMul(double d, Q &out) {
  if (d == 0) return false;
  double x = d / M_PI;
  for (int den : {1, 2, 4, 3, 6, 8, 16, 32, 64, 5, 7, 12}) {
    double y = x * den, r = std::round(y);
    if (r != 0 && std::fabs(r) <= 4096 && std::fabs(y - r) <= 3e-15 * std::fabs(y)) { out = Q(BI((long long)r), BI(den)); return true; }
  }
  return false;
}
u32 newAtom(AK k, u32 ref, Z3_ast z) { atoms.push_back({k, ref, z}); return atoms.size() - 1; }
Z3_ast fresh(const char *p) { Z3_ast a = Z3_mk_fresh_const(Z, p, RS); return a; }
void padd(Poly &p, const Mono &m, const Q &c) {
  auto it = p.find(m);
  if (it == p.end()) { if (c != 0) p.emplace(m, c); }
  else { it->second += c; if (it->second == 0) p.erase(it); }
}
Poly pconst(const Q &c) { Poly p; if (c != 0) p[{}] = c; return p; }
Poly patom(u32 a) { Poly p; p[{{a, 1}}] = 1; return p; }
Poly add(const Poly &a, const Poly &b, int sg = 1) { Poly r = a; for (auto &[m, c] : b) padd(r, m, sg > 0 ? c : Q(-c)); return r; }
Poly scale(const Poly &a, const Q &q) { Poly r; if (q == 0) return r; for (auto &[m, c] : a) r[m] = c * q; return r; }
void emitMono(Poly &out, Mono m, Q c) { // reduce s^2 -> 1-c^2, q^2 -> 1/2
  for (size_t i = 0; i < m.size(); ++i) {
    auto &[a, e] = m[i];
    if (atoms[a].k == A_Q && e >= 2) {
      Q f = 1; for (u32 k = 0; k < e / 2; ++k) f /= 2;
      if (e & 1) e = 1; else m.erase(m.begin() + i);
      emitMono(out, m, c * f);
      return;
    }
    if (atoms[a].k == A_SIN && e >= 2) {
      u32 ca = bases[atoms[a].ref].c;
      Mono m1 = m;
      if (e == 2) m1.erase(m1.begin() + i); else m1[i].second -= 2;
      emitMono(out, m1, c);
      bool f = false;
      for (auto &pr : m1) if (pr.first == ca) { pr.second += 2; f = true; }
      if (!f) { m1.push_back({ca, 2}); std::sort(m1.begin(), m1.end()); }
      emitMono(out, m1, -c);
      return;
    }
  }
  padd(out, m, c);
}
Poly mul(const Poly &a, const Poly &b) {
  Poly r;
  for (auto &[m, c] : a) for (auto &[n, d] : b) {
    Mono x; size_t i = 0, j = 0;
    while (i < m.size() || j < n.size()) {
      if (j == n.size() || (i < m.size() && m[i].first < n[j].first)) x.push_back(m[i++]);
      else if (i == m.size() || n[j].first < m[i].first) x.push_back(n[j++]);
      else { x.push_back({m[i].first, m[i].second + n[j].second}); ++i; ++j; }
    }
    emitMono(r, x, c * d);
  }
  return r;
}
bool isConst(const Poly &p, Q &c) { if (p.empty()) { c = 0; return true; } if (p.size() == 1 && p.begin()->first.empty()) { c = p.begin()->second; return true; } return false; }

// ---- linear forms of angles
struct Lin { std::map<u32, Q> v; Q c = 0, pi = 0; };
bool lin(u32 e, Lin &l, const Q &f) {
  auto n = nodes[e];
  switch (n.op) {
  case OP_CONST: { double d = fval(e); Q q; if (d == 0) return true; if (simple(d, q, 1e-17)) { l.c += f * q; return true; } if (piMul(d, q)) { l.pi += f * q; return true; } l.c += f * dq(d); return true; }
  case OP_FADD: return lin(n.a, l, f) && lin(n.b, l, f);
  case OP_FSUB: return lin(n.a, l, f) && lin(n.b, l, -f);
  case OP_FNEG: return lin(n.a, l, -f);
  case OP_FMUL: {
    u32 a = n.a, b = n.b;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { Q q; if (!simple(fval(b), q)) q = dq(fval(b)); return lin(a, l, f * q); }
    break;
  }
  case OP_FDIV: if (isC(n.b) && fval(n.b) != 0) { Q q; if (!simple(fval(n.b), q)) q = dq(fval(n.b)); return lin(n.a, l, f / q); } break;
  }
  auto &x = l.v[e]; x += f; if (x == 0) l.v.erase(e);
  return true;
}
u64 denU(const Q &q) { BI d = boost::multiprecision::denominator(q); return d > 4096 ? 0 : (u64)d; }
u64 lcm_(u64 a, u64 b) { u64 x = a, y = b; while (y) { u64 t = x % y; x = y; y = t; } return a / x * b; }

Poly toPoly(u32 e);
Z3_ast polyAst(const Poly &p);
u32 atomOfNode(u32 e) { // variable / opaque node as a plain real
  auto it = varAtom.find(e);
  if (it != varAtom.end()) return it->second;
  Z3_ast z;
  if (nodes[e].op == OP_VAR) { char nm[32]; snprintf(nm, 32, "r%u", (unsigned)nodes[e].aux); z = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), RS); }
  else z = fresh("o");
  u32 a = newAtom(nodes[e].op == OP_VAR ? A_VAR : A_OPQ, e, z);
  varAtom[e] = a;
  return a;
}
u32 getBase(u32 e) {
  auto it = baseOf.find(e);
  if (it != baseOf.end()) return it->second;
  u32 i = bases.size();
  Base b{}; b.node = e; b.D = denom.count(e) ? denom[e] : 1;
  bases.push_back(b);
  baseOf[e] = i;
  Z3_ast c = fresh("c"), s = fresh("s");
  bases[i].c = newAtom(A_COS, i, c);
  bases[i].s = newAtom(A_SIN, i, s);
  Z3_ast sq1[2] = {c, c}, sq2[2] = {s, s};
  Z3_ast sm[2] = {Z3_mk_mul(Z, 2, sq1), Z3_mk_mul(Z, 2, sq2)};
  side.push_back(Z3_mk_eq(Z, Z3_mk_add(Z, 2, sm), zq(1)));
  return i;
}
using CP = std::pair<Poly, Poly>; // re, im
CP cmul(const CP &a, const CP &b) { return {add(mul(a.first, b.first), mul(a.second, b.second), -1), add(mul(a.first, b.second), mul(a.second, b.first))}; }
CP cpow(CP b, u64 n) { CP r{pconst(1), {}}; while (n) { if (n & 1) r = cmul(r, b); b = cmul(b, b); n >>= 1; } return r; }
CP constAngle(double v) { // cos/sin of a plain constant: opaque but bounded numerically
  auto it = cbase.find(v);
  u32 i;
  if (it == cbase.end()) {
    i = bases.size(); bases.push_back(Base{}); cbase[v] = i;
    Z3_ast c = fresh("kc"), s = fresh("ks");
    bases[i].c = newAtom(A_COS, i, c); bases[i].s = newAtom(A_SIN, i, s); bases[i].D = 1; bases[i].node = 0; bases[i].kv = v;
    Z3_ast sq1[2] = {c, c}, sq2[2] = {s, s}, sm[2] = {Z3_mk_mul(Z, 2, sq1), Z3_mk_mul(Z, 2, sq2)};
    side.push_back(Z3_mk_eq(Z, Z3_mk_add(Z, 2, sm), zq(1)));
    for (int k = 0; k < 2; ++k) {
      double x = k ? std::sin(v) : std::cos(v);
      side.push_back(Z3_mk_le(Z, zq(dq(x - 1e-14)), k ? s : c));
      side.push_back(Z3_mk_le(Z, k ? s : c, zq(dq(x + 1e-14))));
    }
  } else i = it->second;
  return {patom(bases[i].c), patom(bases[i].s)};
}
CP piAngle(Q r) { // e^{i pi r}
  // normalise to [0,2)
  BI num = boost::multiprecision::numerator(r), den = boost::multiprecision::denominator(r);
  BI m = num % (2 * den); if (m < 0) m += 2 * den;
  Q x(m, den);
  Q k4 = x * 4;
  if (boost::multiprecision::denominator(k4) == 1) {
    int k = (int)boost::multiprecision::numerator(k4);
    Poly q = patom(atomQ);
    CP t[8] = {{pconst(1), {}}, {q, q}, {{}, pconst(1)}, {scale(q, -1), q}, {pconst(-1), {}}, {scale(q, -1), scale(q, -1)}, {{}, pconst(-1)}, {q, scale(q, -1)}};
    return t[k];
  }
  return constAngle((double)x * M_PI);
}
CP expI(const Lin &l) {
  CP r = piAngle(l.pi);
  if (l.c != 0) r = cmul(r, constAngle((double)l.c));
  for (auto &[nd, f] : l.v) {
    u32 b = getBase(nd);
    Q k = f * Q(BI(bases[b].D));
    BI n = boost::multiprecision::numerator(k);
    if (boost::multiprecision::denominator(k) != 1) { unsupported("angle denominator"); return {patom(newAtom(A_OPQ, 0, fresh("x"))), patom(newAtom(A_OPQ, 0, fresh("x")))}; }
    CP z{patom(bases[b].c), patom(bases[b].s)};
    bool neg = n < 0; if (neg) n = -n;
    CP w = cpow(z, (u64)n);
    if (neg) w.second = scale(w.second, -1);
    r = cmul(r, w);
  }
  return r;
}
Poly opaque(Z3_ast z) { return patom(newAtom(A_OPQ, 0, z)); }
Poly toPoly(u32 e) {
  auto it = memoP.find(e);
  if (it != memoP.end()) return it->second;
  auto n = nodes[e];
  Poly r;
  switch (n.op) {
  case OP_CONST: {
    double d = fval(e); Q q;
    if (gExact) r = pconst(dq(d));
    else if (simple(d, q, 1e-17)) r = pconst(q);
    else if (simple(d / M_SQRT1_2, q)) r = scale(patom(atomQ), q);
    else if (piMul(d, q)) r = scale(patom(atomPI), q);
    else if (simple(d, q)) r = pconst(q);
    else r = pconst(dq(d));
    break;
  }
  case OP_FADD: r = add(toPoly(n.a), toPoly(n.b)); break;
  case OP_FSUB: r = add(toPoly(n.a), toPoly(n.b), -1); break;
  case OP_FNEG: r = scale(toPoly(n.a), -1); break;
  case OP_FMUL: r = mul(toPoly(n.a), toPoly(n.b)); break;
  case OP_FDIV: {
    Poly a = toPoly(n.a), b = toPoly(n.b); Q c;
    if (isConst(b, c) && c != 0) { r = scale(a, 1 / c); break; }
    if (b.size() == 1 && b.begin()->first.size() == 1 && b.begin()->first[0] == std::pair<u32, u32>{atomQ, 1}) { r = scale(mul(a, patom(atomQ)), 2 / b.begin()->second); break; }
    Z3_ast d = fresh("d"); Z3_ast t[2] = {d, polyAst(b)};
    side.push_back(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, t), polyAst(a)));
    r = opaque(d); break;
  }
  case OP_SIN: case OP_COS: {
    Lin l; lin(n.a, l, 1);
    CP z = expI(l);
    r = n.op == OP_SIN ? z.second : z.first;
    break;
  }
  case OP_FABS: { Poly a = toPoly(n.a); Q c; if (isConst(a, c)) { r = pconst(c < 0 ? Q(-c) : c); break; } Z3_ast z = polyAst(a); r = opaque(Z3_mk_ite(Z, Z3_mk_ge(Z, z, zq(0)), z, Z3_mk_unary_minus(Z, z))); break; }
  case OP_FMAX: case OP_FMIN: { Z3_ast x = polyAst(toPoly(n.a)), y = polyAst(toPoly(n.b)); r = opaque(Z3_mk_ite(Z, n.op == OP_FMAX ? Z3_mk_ge(Z, x, y) : Z3_mk_le(Z, x, y), x, y)); break; }
  case OP_FSQRT: case OP_HYPOT: {
    Poly p = n.op == OP_FSQRT ? toPoly(n.a) : add(mul(toPoly(n.a), toPoly(n.a)), mul(toPoly(n.b), toPoly(n.b)));
    Q c; if (isConst(p, c) && c == 1) { r = pconst(1); break; }
    if (isConst(p, c) && c == Q(1, 2)) { r = patom(atomQ); break; }
    if (isConst(p, c) && c == 0) break;
    Z3_ast s = fresh("s"); Z3_ast t[2] = {s, s};
    side.push_back(Z3_mk_ge(Z, s, zq(0)));
    side.push_back(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, t), polyAst(p)));
    r = opaque(s); break;
  }
  case OP_ITE: if (n.isF) { Z3_ast c = tr(n.a); r = opaque(Z3_mk_ite(Z, c, polyAst(toPoly(n.b)), polyAst(toPoly(n.c)))); break; }
    [[fallthrough]];
  case OP_SITOFP: case OP_UITOFP:
    if (n.op != OP_ITE) { Z3_ast a = tr(n.a); if (nodes[n.a].w == 1) a = b2bv(a); r = opaque(Z3_mk_int2real(Z, Z3_mk_bv2int(Z, a, n.op == OP_SITOFP))); break; }
    [[fallthrough]];
  case OP_FFLOOR: case OP_FCEIL: case OP_FTRUNC: case OP_FROUND: case OP_FRINT:
    if (n.op >= OP_FFLOOR && n.op <= OP_FRINT) {
      Z3_ast a = polyAst(toPoly(n.a));
      auto fl = [&](Z3_ast x) { return Z3_mk_int2real(Z, Z3_mk_real2int(Z, x)); };
      Z3_ast half[2] = {a, zq(Q(1, 2))};
      Z3_ast z = n.op == OP_FFLOOR ? fl(a) : n.op == OP_FCEIL ? Z3_mk_unary_minus(Z, fl(Z3_mk_unary_minus(Z, a)))
                 : n.op == OP_FTRUNC ? Z3_mk_ite(Z, Z3_mk_ge(Z, a, zq(0)), fl(a), Z3_mk_unary_minus(Z, fl(Z3_mk_unary_minus(Z, a)))) : fl(Z3_mk_add(Z, 2, half));
      if (n.op == OP_FRINT) { // ties to even
        Z3_ast up = Z3_mk_add(Z, 2, half), i = Z3_mk_real2int(Z, up), two = Z3_mk_int(Z, 2, Z3_mk_int_sort(Z)), one = Z3_mk_int(Z, 1, Z3_mk_int_sort(Z));
        Z3_ast tie[2] = {Z3_mk_eq(Z, up, z), Z3_mk_eq(Z, Z3_mk_mod(Z, i, two), one)}, dn[2] = {z, zq(Q(1))};
        z = Z3_mk_ite(Z, Z3_mk_and(Z, 2, tie), Z3_mk_sub(Z, 2, dn), z);
      }
      r = opaque(z); break;
    }
    [[fallthrough]];
  case OP_VAR: if (n.op == OP_VAR) { r = patom(atomOfNode(e)); break; } [[fallthrough]];
  case OP_ATAN2: case OP_ACOS: case OP_ASIN:
    if (n.op == OP_ATAN2 || n.op == OP_ACOS || n.op == OP_ASIN) {
      u32 at = atomOfNode(e), b = getBase(e);
      CP z = cpow({patom(bases[b].c), patom(bases[b].s)}, bases[b].D);
      Z3_ast c = polyAst(z.first), s = polyAst(z.second);
      if (n.op == OP_ATAN2) {
        Z3_ast y = polyAst(toPoly(n.a)), x = polyAst(toPoly(n.b)), rr = fresh("rho");
        Z3_ast xx[2] = {x, x}, yy[2] = {y, y}, r2[2] = {rr, rr}, cr[2] = {c, rr}, sr[2] = {s, rr};
        Z3_ast sm[2] = {Z3_mk_mul(Z, 2, xx), Z3_mk_mul(Z, 2, yy)};
        side.push_back(Z3_mk_ge(Z, rr, zq(0)));
        side.push_back(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, r2), Z3_mk_add(Z, 2, sm)));
        side.push_back(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, cr), x));
        side.push_back(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, sr), y));
      } else if (n.op == OP_ACOS) { side.push_back(Z3_mk_eq(Z, c, polyAst(toPoly(n.a)))); side.push_back(Z3_mk_ge(Z, s, zq(0))); }
      else { side.push_back(Z3_mk_eq(Z, s, polyAst(toPoly(n.a)))); side.push_back(Z3_mk_ge(Z, c, zq(0))); }
      r = patom(at);
      break;
    }
    [[fallthrough]];
  case OP_FREM: if (n.op == OP_FREM) {
      Poly a = toPoly(n.a), b = toPoly(n.b); Q c;
      if (isConst(b, c) && c != 0) { // a - b * trunc(a / b)
        Z3_ast q = polyAst(scale(a, 1 / c));
        auto fl = [&](Z3_ast x) { return Z3_mk_int2real(Z, Z3_mk_real2int(Z, x)); };
        Z3_ast t = Z3_mk_ite(Z, Z3_mk_ge(Z, q, zq(0)), fl(q), Z3_mk_unary_minus(Z, fl(Z3_mk_unary_minus(Z, q))));
        r = add(a, scale(opaque(t), c), -1); break;
      }
    }
    [[fallthrough]];
  case OP_POW: if (n.op == OP_POW && isC(n.b) && fval(n.b) == 2) { Poly a = toPoly(n.a); r = mul(a, a); break; } [[fallthrough]];
  default:
    unsupported("uninterpreted real op");
    r = patom(atomOfNode(e));
  }
  memoP[e] = r;
  return r;
}
Z3_ast polyAst(const Poly &p) {
  if (p.empty()) return zq(0);
  std::vector<Z3_ast> ts;
  for (auto &[m, c] : p) {
    std::vector<Z3_ast> f;
    if (c != 1 || m.empty()) f.push_back(zq(c));
    for (auto &[a, e] : m) for (u32 k = 0; k < e; ++k) f.push_back(atoms[a].z);
    ts.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(Z, f.size(), f.data()));
  }
  return ts.size() == 1 ? ts[0] : Z3_mk_add(Z, ts.size(), ts.data());
}
} // namespace
void realInit() {
  atoms.clear(); varAtom.clear(); bases.clear(); baseOf.clear(); memoP.clear(); side.clear(); pins.clear(); denom.clear(); cbase.clear();
  sideBase = sideTmp = 0; depth_ = 0;
  if (!gReal) return;
  RS = Z3_mk_real_sort(Z);
  atomQ = newAtom(A_Q, 0, fresh("q"));
  if (!gExact) { Z3_ast qq[2] = {atoms[atomQ].z, atoms[atomQ].z};
  side.push_back(Z3_mk_gt(Z, atoms[atomQ].z, zq(0)));
  side.push_back(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, qq), zq(Q(1, 2)))); }
  atomPI = newAtom(A_PI, 0, zq(dq(M_PI)));
  for (u32 i = 1; i < nodes.size(); ++i)
    if (nodes[i].op == OP_SIN || nodes[i].op == OP_COS) {
      Lin l; lin(nodes[i].a, l, 1);
      for (auto &[nd, f] : l.v) { u64 d = denU(f); if (d) { auto &x = denom[nd]; x = x ? lcm_(x, d) : d; } }
    }
}
void realPush() { depth_++; }
void realPop() { depth_--; if (!depth_) sideTmp = sideBase; }
void realFlush(Z3_solver s) {
  if (!gReal) return;
  size_t &i = depth_ ? sideTmp : sideBase;
  for (; i < side.size(); ++i) Z3_solver_assert(Z, s, side[i]);
  if (!depth_) sideTmp = sideBase;
}
Z3_ast realAst(u32 e) { return polyAst(toPoly(e)); }
Z3_ast realCmp(unsigned op, u32 a, u32 b) {
  Poly d = add(toPoly(a), toPoly(b), -1);
  Q c;
  if (isConst(d, c)) return (op == OP_FOEQ ? c == 0 : op == OP_FOLT ? c < 0 : c <= 0) ? Z3_mk_true(Z) : Z3_mk_false(Z);
  Z3_ast z = polyAst(d), o = zq(0);
  return op == OP_FOEQ ? Z3_mk_eq(Z, z, o) : op == OP_FOLT ? Z3_mk_lt(Z, z, o) : Z3_mk_le(Z, z, o);
}
Z3_ast realToInt(u32 a, unsigned w) {
  Z3_ast x = realAst(a);
  Z3_ast t = Z3_mk_ite(Z, Z3_mk_ge(Z, x, zq(0)), Z3_mk_real2int(Z, x), Z3_mk_unary_minus(Z, Z3_mk_real2int(Z, Z3_mk_unary_minus(Z, x))));
  return Z3_mk_int2bv(Z, w, t);
}
Z3_ast realIntIs(u32 a, int64_t v, bool margin) {
  const auto lim = [&](int64_t twice) { return zq(Q(twice, 2)); };
  if (margin) {
    const bool r = nodes[a].op == OP_FRINT;
    const Q e(BI(1), BI(1000000000LL));
    Z3_ast x = realAst(r ? nodes[a].a : a);
    Q lo = r ? Q(2 * v - 1, 2) : v > 0 ? Q(v) : Q(v - 1), hi = r ? Q(2 * v + 1, 2) : v < 0 ? Q(v) : Q(v + 1);
    Z3_ast c[2] = {Z3_mk_le(Z, zq(Q(lo + e)), x), Z3_mk_le(Z, x, zq(Q(hi - e)))};
    return Z3_mk_and(Z, 2, c);
  }
  if (nodes[a].op == OP_FRINT) { // ties to even
    Z3_ast x = realAst(nodes[a].a), l = lim(2 * v - 1), h = lim(2 * v + 1);
    Z3_ast c[2];
    if (v & 1) { c[0] = Z3_mk_lt(Z, l, x); c[1] = Z3_mk_lt(Z, x, h); } else { c[0] = Z3_mk_le(Z, l, x); c[1] = Z3_mk_le(Z, x, h); }
    return Z3_mk_and(Z, 2, c);
  }
  Z3_ast x = realAst(a);
  Z3_ast c[2] = {v > 0 ? Z3_mk_le(Z, lim(2 * v), x) : Z3_mk_lt(Z, lim(2 * v - 2), x), v < 0 ? Z3_mk_le(Z, x, lim(2 * v)) : Z3_mk_lt(Z, x, lim(2 * v + 2))};
  return Z3_mk_and(Z, 2, c);
}
Z3_ast realEqConst(u32 e, u64 bits) { double d; memcpy(&d, &bits, 8); return Z3_mk_eq(Z, realAst(e), zq(dq(d))); }
void realRange(Z3_solver s, size_t var) {
  Z3_ast z = realAst(vars[var].expr);
  Z3_solver_assert(Z, s, Z3_mk_le(Z, zq(dq(vars[var].flo)), z));
  Z3_solver_assert(Z, s, Z3_mk_le(Z, z, zq(dq(vars[var].fhi))));
}
static bool numD(Z3_ast o, double &d) {
  if (Z3_get_ast_kind(Z, o) == Z3_NUMERAL_AST) { d = Z3_get_numeral_double(Z, o); return true; }
  if (Z3_is_algebraic_number(Z, o)) { d = Z3_get_numeral_double(Z, Z3_get_algebraic_number_lower(Z, o, 20)); return true; }
  return false;
}
u64 realModel(Z3_model m, size_t var) {
  auto &v = vars[var];
  u64 r = v.value; double d; Z3_ast o;
  bool got = false;
  auto it = varAtom.find(v.expr);
  if (it != varAtom.end() && Z3_model_eval(Z, m, atoms[it->second].z, false, &o) && numD(o, d)) { got = true; memcpy(&r, &d, 8); }
  auto bt = baseOf.find(v.expr);
  if (bt != baseOf.end()) {
    double c, s; Z3_ast oc, os;
    if (Z3_model_eval(Z, m, atoms[bases[bt->second].c].z, false, &oc) && numD(oc, c) && Z3_model_eval(Z, m, atoms[bases[bt->second].s].z, false, &os) && numD(os, s)) {
      double x = std::atan2(s, c) * (double)bases[bt->second].D;
      if (!got || (d == v.flo)) { if (x >= v.flo && x <= v.fhi) memcpy(&r, &x, 8); }
    }
  }
  return r;
}
void realNotePath(u32 e, bool taken) {
  if (!gReal || !taken) return;
  auto n = nodes[e];
  if ((n.op != OP_FOLT && n.op != OP_FOLE) || !isC(n.b) || nodes[n.a].op != OP_FABS) return;
  double eps = fval(n.b);
  if (!(eps <= 1e-6)) return;
  Lin l; lin(nodes[n.a].a, l, 1);
  if (l.v.size() != 1) return;
  auto [nd, f] = *l.v.begin();
  Pin p; p.eps = eps / std::fabs((double)f);
  if (l.c != 0 && l.pi != 0) return;
  p.isPi = l.pi != 0; p.val = p.isPi ? Q(-l.pi / f) : Q(-l.c / f);
  pins[nd] = p;
}
static double absum(const Poly &p) { double t = 0; for (auto &[m, c] : p) t += std::fabs((double)c) * (1); return t; }
static bool bounded(const Poly &p) { for (auto &[m, c] : p) for (auto &pr : m) if (atoms[pr.first].k == A_OPQ || atoms[pr.first].k == A_VAR) return false; return true; }
int realNear(u32 a, u32 b, double tol) {
  Poly d = add(toPoly(a), toPoly(b), -1);
  if (d.empty()) return 1;
  if (bounded(d) && absum(d) * 4 <= tol) return 1;
  {
    Poly r; double errb = 0;
    for (auto &[m, c] : d) {
      Poly t = pconst(c);
      double e = 0;
      for (auto &[at, ex] : m) {
        auto &A = atoms[at];
        Poly f = patom(at);
        auto num = [&](long double v) { f = pconst(Q(BI((long long)(v * 1152921504606846976.0L)), BI(1152921504606846976LL))); e += ex * 1e-15; };
        if (A.k == A_Q) num(0.707106781186547524400844362104849039L);
        else if ((A.k == A_COS || A.k == A_SIN) && !bases[A.ref].node) num(A.k == A_COS ? cosl(bases[A.ref].kv) : sinl(bases[A.ref].kv));
        else if ((A.k == A_COS || A.k == A_SIN) && bases[A.ref].node) {
          auto &B = bases[A.ref];
          auto it = pins.find(B.node);
          if (it != pins.end()) {
            long double ang = (long double)(double)it->second.val * (it->second.isPi ? 3.14159265358979323846264338327950288L : 1.0L) / B.D;
            num(A.k == A_COS ? cosl(ang) : sinl(ang));
            e += ex * it->second.eps / B.D;
          }
        } else if (A.k == A_VAR) {
          auto it = pins.find(A.ref);
          if (it != pins.end()) { f = it->second.isPi ? scale(patom(atomPI), it->second.val) : pconst(it->second.val); e += 10 * ex * it->second.eps; }
        }
        for (u32 k = 0; k < ex; ++k) t = mul(t, f);
      }
      errb += std::fabs((double)c) * e;
      r = add(r, t);
    }
    if (bounded(r) && absum(r) * 4 + errb <= tol) return 1;
  }
  return 0;
}
Z3_ast realNearNeg(u32 a, u32 b, double tol) {
  Poly d = add(toPoly(a), toPoly(b), -1);
  Z3_ast z = polyAst(d);
  Z3_ast t[2] = {Z3_mk_gt(Z, z, zq(dq(tol))), Z3_mk_lt(Z, z, zq(dq(-tol)))};
  return Z3_mk_or(Z, 2, t);
}

Z3_ast realMargin(u32 e) {
  auto n = nodes[e];
  while (n.op == OP_XOR && n.w == 1 && isC(n.b)) n = nodes[n.a];
  if (n.op != OP_FOLT && n.op != OP_FOLE) return nullptr;
  Poly d = add(toPoly(n.a), toPoly(n.b), -1);
  Q c;
  if (isConst(d, c)) return nullptr;
  Z3_ast z = polyAst(d);
  Q m = Q(BI(1), BI(100000000000000LL));
  Z3_ast t[2] = {Z3_mk_ge(Z, z, zq(m)), Z3_mk_le(Z, z, zq(-m))};
  return Z3_mk_or(Z, 2, t);
}
