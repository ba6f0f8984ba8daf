// Reference semantics of circuits: dense state vectors, with classical bits and
// mixtures for the non-unitary operations.  Qubit q is bit q of the index.
#pragma once
#include "ref.h"
#include "ir/QuantumComputation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/StandardOperation.hpp"
#include "ir/operations/SymbolicOperation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include <map>
#include <memory>
#include <string>
#include <vector>
using SV = std::vector<Cx>;
static inline SV basis(unsigned n, unsigned x) { SV v(1U << n); v[x] = {1, 0}; return v; }
// control masks: bits in `mask` must equal `val`
static inline void ctrlMask(const qc::Controls &cs, unsigned &mask, unsigned &val) {
  mask = val = 0;
  for (const auto &c : cs) { mask |= 1U << c.qubit; if (c.type == qc::Control::Type::Pos) val |= 1U << c.qubit; }
}
static inline void applyMat(SV &v, const Mat &m, const std::vector<unsigned> &t, unsigned mask, unsigned val) {
  // m rows: most significant bit belongs to t[0]
  const unsigned k = (unsigned)t.size(), d = 1U << k;
  unsigned tm = 0;
  for (auto q : t) tm |= 1U << q;
  for (unsigned i = 0; i < v.size(); ++i) {
    if ((i & tm) != 0 || (i & mask) != val) continue;
    SV in(d), out(d);
    std::vector<unsigned> ix(d);
    for (unsigned r = 0; r < d; ++r) {
      unsigned j = i;
      for (unsigned b = 0; b < k; ++b) if (r >> (k - 1 - b) & 1U) j |= 1U << t[b];
      ix[r] = j; in[r] = v[j];
    }
    for (unsigned r = 0; r < d; ++r) for (unsigned c = 0; c < d; ++c) {
      const Cx e = m.a[r][c];
      out[r] = out[r] + e * in[c];
    }
    for (unsigned r = 0; r < d; ++r) v[ix[r]] = out[r];
  }
}
struct Branch { std::uint64_t c = 0; SV v; };
using Ens = std::vector<Branch>;
static bool gKeepZero = false; // keep branches of probability zero (for symbolic amplitudes)
static inline bool cmpKind(std::uint64_t a, std::uint64_t b, qc::ComparisonKind k) {
  switch (k) {
  case qc::Eq: return a == b;
  case qc::Neq: return a != b;
  case qc::Lt: return a < b;
  case qc::Leq: return a <= b;
  case qc::Gt: return a > b;
  case qc::Geq: return a >= b;
  }
  return false;
}
static inline void applyOpSV(SV &v, const qc::Operation &op) { // standard unitary gates
  const auto t = op.getType();
  if (t == qc::Barrier || t == qc::None) return;
  unsigned mask, val;
  ctrlMask(op.getControls(), mask, val);
  const std::vector<double> p(op.getParameter().begin(), op.getParameter().end());
  if (t == qc::GPhase) {
    const Cx e = cis(p.at(0));
    for (unsigned i = 0; i < v.size(); ++i) if ((i & mask) == val) v[i] = v[i] * e;
    return;
  }
  const Mat m = refGate(t, p);
  std::vector<unsigned> tg(op.getTargets().begin(), op.getTargets().end());
  if (m.n == 2) for (auto q : tg) applyMat(v, m, {q}, mask, val);
  else { sym_assert(tg.size() == 2 && tg[0] != tg[1], "two-qubit gate without two distinct targets"); applyMat(v, m, tg, mask, val); }
}
static inline void applyOp(Ens &e, const qc::Operation &op) {
  if (op.getType() == qc::Compound || op.isCompoundOperation()) {
    for (const auto &s : dynamic_cast<const qc::CompoundOperation &>(op)) applyOp(e, *s);
    return;
  }
  if (op.isClassicControlledOperation()) {
    const auto &cc = dynamic_cast<const qc::ClassicControlledOperation &>(op);
    Ens out;
    for (auto &b : e) {
      bool on;
      if (const auto &r = cc.getControlRegister(); r.has_value()) {
        const std::uint64_t val = (b.c >> r->getStartIndex()) & ((1ULL << r->getSize()) - 1);
        on = cmpKind(val, cc.getExpectedValue(), cc.getComparisonKind());
      } else on = cmpKind((b.c >> *cc.getControlBit()) & 1U, cc.getExpectedValue(), cc.getComparisonKind());
      if (on) { Ens one{b}; applyOp(one, *cc.getOperation()); for (auto &x : one) out.push_back(std::move(x)); }
      else out.push_back(b);
    }
    e = std::move(out);
    return;
  }
  if (op.getType() == qc::Measure) {
    const auto &m = dynamic_cast<const qc::NonUnitaryOperation &>(op);
    const auto &cl = m.getClassics();
    sym_assert(cl.size() == m.getTargets().size(), "measurement without a bit per qubit");
    for (size_t k = 0; k < cl.size(); ++k) {
      Ens out;
      for (auto &b : e) for (unsigned r = 0; r < 2; ++r) {
        Branch n; n.c = (b.c & ~(1ULL << cl[k])) | ((std::uint64_t)r << cl[k]); n.v = b.v;
        bool nz = gKeepZero;
        for (unsigned i = 0; i < n.v.size(); ++i) {
          if ((i >> m.getTargets()[k] & 1U) != r) n.v[i] = {0, 0};
          else if (!nz && !(n.v[i].re == 0 && n.v[i].im == 0)) nz = true;
        }
        if (nz) out.push_back(std::move(n));
      }
      e = std::move(out);
    }
    return;
  }
  if (op.getType() == qc::Reset) {
    for (auto q : op.getTargets()) {
      Ens out;
      for (auto &b : e) for (unsigned r = 0; r < 2; ++r) {
        Branch n; n.c = b.c; n.v.resize(b.v.size());
        bool nz = gKeepZero;
        for (unsigned i = 0; i < n.v.size(); ++i) if ((i >> q & 1U) == r) { n.v[i & ~(1U << q)] = b.v[i]; if (!nz && !(b.v[i].re == 0 && b.v[i].im == 0)) nz = true; }
        if (nz) out.push_back(std::move(n));
      }
      e = std::move(out);
    }
    return;
  }
  for (auto &b : e) applyOpSV(b.v, op);
}
static inline void applyCirc(Ens &e, const qc::QuantumComputation &qc) {
  for (const auto &op : qc) applyOp(e, *op);
  const double g = qc.getGlobalPhase();
  if (!(g == 0)) { const Cx f = cis(g); for (auto &b : e) for (auto &a : b.v) a = a * f; }
}
// columns of the unitary
static inline std::vector<SV> unitary(const qc::QuantumComputation &qc, unsigned n) {
  std::vector<SV> u;
  for (unsigned x = 0; x < (1U << n); ++x) {
    Ens e{Branch{0, basis(n, x)}};
    applyCirc(e, qc);
    sym_assert(e.size() == 1, "circuit is not unitary");
    u.push_back(e[0].v);
  }
  return u;
}
static inline std::vector<SV> unitary(const qc::Operation &op, unsigned n) {
  std::vector<SV> u;
  for (unsigned x = 0; x < (1U << n); ++x) {
    Ens e{Branch{0, basis(n, x)}};
    applyOp(e, op);
    sym_assert(e.size() == 1, "operation is not unitary");
    u.push_back(e[0].v);
  }
  return u;
}
static inline void assertSameSV(const SV &a, const SV &b, const char *msg, double tol = 1e-9) {
  sym_assert(a.size() == b.size(), "dimension mismatch");
  for (size_t i = 0; i < a.size(); ++i) { sym_assert_near(a[i].re, b[i].re, tol, msg); sym_assert_near(a[i].im, b[i].im, tol, msg); }
}
static inline void assertSameU(const std::vector<SV> &a, const std::vector<SV> &b, const char *msg, double tol = 1e-9) {
  sym_assert(a.size() == b.size(), "dimension mismatch");
  for (size_t i = 0; i < a.size(); ++i) assertSameSV(a[i], b[i], msg, tol);
}
// product of the adjoint of a with b must be the identity, i.e. a == b; for the
// inverse: applying b after a must give back the basis state
static inline bool nearSV(const SV &a, const SV &b, double tol = 1e-9) { // concrete use only
  for (size_t i = 0; i < a.size(); ++i) if (std::fabs(a[i].re - b[i].re) > tol || std::fabs(a[i].im - b[i].im) > tol) return false;
  return true;
}
// density matrices per classical value
using Dens = std::map<std::uint64_t, std::vector<SV>>;
static inline Dens density(const Ens &e) {
  Dens d;
  for (const auto &b : e) {
    auto &m = d[b.c];
    if (m.empty()) m.assign(b.v.size(), SV(b.v.size()));
    for (size_t i = 0; i < b.v.size(); ++i) for (size_t j = 0; j < b.v.size(); ++j) m[i][j] = m[i][j] + b.v[i] * Cx{b.v[j].re, -b.v[j].im};
  }
  return d;
}
static inline bool isZero(const std::vector<SV> &m) { for (auto &r : m) for (auto &x : r) if (std::fabs(x.re) > 1e-9 || std::fabs(x.im) > 1e-9) return false; return true; }
static inline void assertSameDens(Dens a, Dens b, const char *msg) {
  for (auto &[c, m] : a) if (b.count(c) == 0) sym_assert(isZero(m), msg);
  for (auto &[c, m] : b) if (a.count(c) == 0) sym_assert(isZero(m), msg);
  for (auto &[c, m] : a) if (b.count(c) != 0) { const auto &o = b[c]; sym_assert(m.size() == o.size(), "dimension mismatch"); for (size_t i = 0; i < m.size(); ++i) assertSameSV(m[i], o[i], msg); }
}
// probability of each classical value
static inline std::map<std::uint64_t, double> probs(const Ens &e) {
  std::map<std::uint64_t, double> p;
  for (const auto &b : e) for (auto &x : b.v) p[b.c] += x.re * x.re + x.im * x.im;
  return p;
}
static inline void assertSameProbs(std::map<std::uint64_t, double> a, std::map<std::uint64_t, double> b, const char *msg) {
  for (auto &[c, p] : a) sym_assert_near(p, b.count(c) ? b[c] : 0., 1e-9, msg);
  for (auto &[c, p] : b) if (!a.count(c)) sym_assert_near(p, 0., 1e-9, msg);
}
// a state with symbolic amplitudes: a linear map that agrees on it agrees everywhere
static inline SV symState(unsigned n) {
  SV v(1U << n);
  for (auto &a : v) a = {sym_real("amp", -1, 1), 0};
  return v;
}
static inline void assertSameEns(const Ens &a, const Ens &b, const char *msg) {
  sym_assert(a.size() == b.size(), msg);
  for (size_t i = 0; i < a.size(); ++i) { sym_assert(a[i].c == b[i].c, msg); assertSameSV(a[i].v, b[i].v, msg, 1e-7); }
}
// some state without symmetries (not normalised)
static inline SV genericState(unsigned n) {
  SV v(1U << n);
  for (unsigned i = 0; i < v.size(); ++i) v[i] = {std::sin(1 + 1.7 * i), std::cos(2.1 + 2.9 * i * i)};
  return v;
}
// trace out a qubit: its value becomes part of the branch label
static inline Ens traceOut(const Ens &e, unsigned q) {
  Ens out;
  for (auto &b : e) for (unsigned r = 0; r < 2; ++r) {
    Branch n; n.c = b.c; n.v.resize(b.v.size());
    for (unsigned i = 0; i < b.v.size(); ++i) if ((i >> q & 1U) == r) n.v[i & ~(1U << q)] = b.v[i];
    out.push_back(std::move(n));
  }
  return out;
}
// an informationally complete product input: qubit k in |0>,|1>,|+>,|i> by digit
static inline SV prodState(unsigned n, const std::vector<unsigned> &dig) {
  SV v = basis(n, 0);
  for (unsigned q = 0; q < n; ++q) {
    if (dig[q] == 1) applyMat(v, refGate(qc::X, {}), {q}, 0, 0);
    if (dig[q] >= 2) applyMat(v, refGate(qc::H, {}), {q}, 0, 0);
    if (dig[q] == 3) applyMat(v, refGate(qc::S, {}), {q}, 0, 0);
  }
  return v;
}
// n data qubits maximally entangled with n reference qubits (indices n..2n-1):
// the output determines the whole channel
static inline SV choiState(unsigned n) {
  SV v(1U << (2 * n));
  for (unsigned x = 0; x < (1U << n); ++x) v[x | (x << n)] = {1, 0};
  return v;
}
// ---- symbolic circuit construction ----------------------------------------
static inline unsigned pin(const char *n, unsigned lo, unsigned hi) { return (unsigned)sym_pin(sym_range(n, lo, hi)); }
static inline qc::Qubit pinQ(const char *n, unsigned nq) { return (qc::Qubit)pin(n, 0, nq - 1); }
static inline bool pinB(const char *n) { return sym_pin(sym_range(n, 0, 1)) != 0; }
struct GateCfg { qc::OpType t; qc::Controls c; std::vector<qc::Qubit> tg; std::vector<double> p; };
// choose targets and controls for a gate with nt targets on nq qubits;
// ctl: 0 none, 1 positive only, 2 both signs
static inline void pickQubits(GateCfg &g, unsigned nq, unsigned nt, unsigned maxc, int ctl) {
  g.tg.clear(); g.c.clear();
  std::vector<unsigned> freeq;
  g.tg.push_back(pinQ("target", nq));
  if (nt == 2) { unsigned d = pin("target2", 0, nq - 2); g.tg.push_back(d >= g.tg[0] ? d + 1 : d); }
  if (ctl == 0 || maxc == 0) return;
  for (unsigned q = 0; q < nq; ++q) {
    bool used = false;
    for (auto t : g.tg) used |= t == q;
    if (used || g.c.size() >= maxc) continue;
    const unsigned k = pin("ctrl", 0, ctl);
    if (k == 1) g.c.emplace(qc::Control{q});
    if (k == 2) g.c.emplace(qc::Control{q, qc::Control::Type::Neg});
  }
}
static inline bool isTwo(qc::OpType t) { for (auto x : kTwo) if (x == t) return true; return false; }
static inline std::unique_ptr<qc::StandardOperation> makeStd(const GateCfg &g) {
  std::vector<qc::fp> p(g.p.begin(), g.p.end());
  if (g.t == qc::GPhase) return std::make_unique<qc::StandardOperation>(g.c, std::vector<qc::Qubit>{}, g.t, p);
  if (g.tg.size() == 2) return std::make_unique<qc::StandardOperation>(g.c, g.tg[0], g.tg[1], g.t, p);
  return std::make_unique<qc::StandardOperation>(g.c, g.tg[0], g.t, p);
}
static const double kAng[] = {1.0471975511965976, -0.7, 1.5707963267948966, 3.141592653589793, -1.5707963267948966, 0.7853981633974483, -0.7853981633974483, 0., 2.5};
static inline void concAngles(GateCfg &g, unsigned from = 2) { // angles picked from a small list
  for (int i = 0; i < numParams(g.t); ++i) g.p.push_back(kAng[pin("ang", 0, from)]);
}
static inline void symAngles(GateCfg &g, double lo = -3.0, double hi = 3.0) {
  for (int i = 0; i < numParams(g.t); ++i) g.p.push_back(sym_real("angle", lo, hi));
}
