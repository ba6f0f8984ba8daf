// Reference counts, garbage collection, resets and compute tables never change what a held decision diagram means.
#include "ddsem.h"
#include <set>
using namespace qc;
static bool near(Cx a, Cx b, double t = 1e-9) { return std::fabs(a.re - b.re) < t && std::fabs(a.im - b.im) < t; }
static DM gateM(OpType t, unsigned q, unsigned n, std::vector<fp> par = {}) {
  DM r(1U << n, SV(1U << n));
  for (unsigned c = 0; c < (1U << n); ++c) { SV v = basis(n, c); applyMat(v, refGate(t, par), {q}, 0, 0); for (unsigned i = 0; i < v.size(); ++i) r[i][c] = v[i]; }
  return r;
}
static SV vecK(unsigned k, unsigned n) { // same shape, other numbers
  SV v(1U << n);
  if (k >= 3) { // only numbers that are never collected
    if (k >= 6) { for (unsigned i = 0; i < v.size(); ++i) v[i] = k == 6 ? Cx{i == 2 ? 1. : 0., 0} : k == 7 ? Cx{i == 0 ? -1. : 1., 0} : Cx{i == 0 || i + 1 == v.size() ? 1. : 0., 0}; return normed(v); }
    for (unsigned i = 0; i < v.size(); ++i) v[i] = k == 3 ? Cx{i == 1 ? 1. : 0., 0} : k == 4 ? Cx{i + 1 == v.size() ? -1. : 1., 0} : Cx{i % 2 == 0 ? 0. : 1., i % 2 == 0 ? 1. : 0.};
    return normed(v);
  }
  for (unsigned i = 0; i < v.size(); ++i) v[i] = Cx{std::cos(1.7 * i * i + 0.9 * k + 0.3), std::sin(2.3 * i + 1.1 * k * (i + 1))};
  if (k == 2) for (unsigned i = 0; i < v.size(); ++i) v[i].im = 0; // real
  return normed(v);
}
static DM matK(unsigned k, unsigned n) {
  DM m(1U << n, SV(1U << n));
  if (k >= 3) { // only numbers that are never collected: permutations with phases
    if (k >= 6) { for (unsigned i = 0; i < m.size(); ++i) { const unsigned j = k == 6 ? i : k == 7 ? m.size() - 1 - i : (i * 3 + 1) % m.size(); m[i][j] = k == 6 && i == 0 ? Cx{0, 1} : Cx{1, 0}; } return m; }
    for (unsigned i = 0; i < m.size(); ++i) { const unsigned j = k == 3 ? (i + 1) % m.size() : k == 4 ? i ^ 1U : i; m[i][j] = k == 4 && i == 1 ? Cx{0, 1} : k == 5 && i + 1 == m.size() ? Cx{-1, 0} : Cx{1, 0}; }
    return m;
  }
  for (unsigned i = 0; i < m.size(); ++i) for (unsigned j = 0; j < m.size(); ++j) m[i][j] = Cx{std::sin(1.0 + 3.1 * i + 7.7 * j + k), std::cos(0.4 + 1.3 * i * k + 2.9 * j)};
  if (k == 2) return gateM(H, 0, n);
  return m;
}
struct World {
  unsigned n;
  dd::Package p;
  dd::mEdge gate{}; // kept over all collections once it is there
  dd::vEdge one{};
  bool hasGate = false, hasOne = false;
  explicit World(unsigned nn) : n(nn), p(nn, smallCfg()) {}
};
static SV vplus(SV a, const SV &b) { for (size_t i = 0; i < a.size(); ++i) a[i] = a[i] + b[i]; return a; }
static DM mplus(DM a, const DM &b) { for (size_t i = 0; i < a.size(); ++i) a[i] = vplus(a[i], b[i]); return a; }
static double mag(Cx a) { return std::sqrt(a.re * a.re + a.im * a.im); }
// one computation on fresh operands; everything is released afterwards
static void compute(World &w, unsigned f, unsigned k) {
  auto &p = w.p;
  const unsigned n = w.n, l = k >= 3 ? 3 + (k - 2) % 3 : (k + 1) % 3;
  const SV a = vecK(k, n), b = vecK(l, n);
  const DM A = matK(k, n), B = matK(l, n);
  const auto mk = [&](const DM &m) { auto e = p.makeDDFromMatrix(cmat(m)); p.incRef(e); return e; };
  if (f == 12) { // a gate that stays alive applied to a state that does not
    const DM m = gateM(X, 0, n);
    if (!w.hasGate) { w.gate = mk(m); w.hasGate = true; }
    const auto ea = p.makeStateFromVector(cvec(a));
    sym_assert(nearSV(dense(p.multiply(w.gate, ea), n), mul(m, a)), "multiply matrix and vector");
    p.decRef(ea);
    return;
  }
  if (f == 13) { // a state extended by a qubit that stays alive
    p.resize(n + 1);
    if (!w.hasOne) { w.one = p.makeStateFromVector(cvec({{0, 0}, {1, 0}})); w.hasOne = true; }
    const auto ea = p.makeStateFromVector(cvec(a));
    SV want(2 * a.size());
    for (unsigned i = 0; i < a.size(); ++i) want[2 * i + 1] = a[i];
    sym_assert(nearSV(dense(p.kronecker(ea, w.one, 1), n + 1), want), "Kronecker product of vectors");
    p.decRef(ea);
    return;
  }
  if (f == 14) { // a state combined with one that stays alive
    const SV o = basis(n, (1U << n) - 2);
    if (!w.hasOne) { w.one = p.makeStateFromVector(cvec(o)); w.hasOne = true; }
    const auto ea = p.makeStateFromVector(cvec(a));
    sym_assert(nearSV(dense(p.add(w.one, ea), n), vplus(o, a)), "add vectors");
    const auto r = p.innerProduct(w.one, ea);
    sym_assert(near({r.r, r.i}, a[(1U << n) - 2]), "inner product");
    p.decRef(ea);
    return;
  }
  if (f == 15) { // a matrix combined with one that stays alive
    const DM m = gateM(X, 0, n);
    if (!w.hasGate) { w.gate = mk(m); w.hasGate = true; }
    const auto ea = mk(A);
    sym_assert(nearM(dense(p.multiply(ea, w.gate), n), mul(A, m)), "multiply matrices");
    sym_assert(nearM(dense(p.add(w.gate, ea), n), mplus(m, A)), "add matrices");
    p.decRef(ea);
    return;
  }
  if (f < 6) {
    auto ea = p.makeStateFromVector(cvec(a)), eb = p.makeStateFromVector(cvec(b));
    switch (f) {
    case 0: { SV c = a; for (auto &x : c) x.im = -x.im; sym_assert(nearSV(dense(p.conjugate(ea), n), c), "conjugate"); break; }
    case 1: sym_assert(nearSV(dense(p.add(ea, eb), n), vplus(a, b)), "add vectors"); break;
    case 2: { Cx s; for (size_t i = 0; i < a.size(); ++i) s = s + Cx{a[i].re, -a[i].im} * b[i]; const auto r = p.innerProduct(ea, eb); sym_assert(near({r.r, r.i}, s), "inner product"); break; }
    case 3: {
      ea = p.reduceGarbage(ea, std::vector<bool>(n, true), true);
      sym_assert(near(dense(ea, n)[0], {1, 0}), "reduce garbage of a vector");
      std::vector<bool> g(n); g[n - 1] = true;
      eb = p.reduceGarbage(eb, g, true);
      const SV d = dense(eb, n);
      for (size_t i = 0; i < b.size() / 2; ++i) { const double want = std::sqrt(mag(b[i]) * mag(b[i]) + mag(b[i + b.size() / 2]) * mag(b[i + b.size() / 2])); sym_assert(near(d[i], {want, 0}), "reduce garbage of a vector"); }
      break;
    }
    case 4: { const DM m = gateM(H, n - 1, n); auto em = mk(m); sym_assert(nearSV(dense(p.multiply(em, ea), n), mul(m, a)) && nearSV(dense(p.multiply(mk(A), eb), n), mul(A, b), 1e-8), "multiply matrix and vector"); p.decRef(em); p.decRef(p.makeDDFromMatrix(cmat(A))); break; }
    default: {
      const auto o = p.makeStateFromVector(cvec(vecK(l, 1)));
      p.resize(n + 1);
      const auto r = p.kronecker(ea, o, 1);
      SV want(2 * a.size());
      for (unsigned i = 0; i < want.size(); ++i) want[i] = a[i >> 1] * vecK(l, 1)[i & 1];
      sym_assert(nearSV(dense(r, n + 1), want), "Kronecker product of vectors");
      p.decRef(o);
    }
    }
    p.decRef(ea); p.decRef(eb);
    return;
  }
  auto ea = mk(A), eb = mk(B);
  switch (f) {
  case 6: sym_assert(nearM(dense(p.conjugateTranspose(ea), n), adj(A)), "conjugate transpose"); break;
  case 7: sym_assert(nearM(dense(p.add(ea, eb), n), mplus(A, B)), "add matrices"); break;
  case 8: sym_assert(nearM(dense(p.multiply(ea, eb), n), mul(A, B), 1e-8), "multiply matrices"); break;
  case 9: {
    std::vector<bool> g(n); g[n - 1] = true;
    ea = p.reduceGarbage(ea, g, true, true);
    const DM d = dense(ea, n);
    const size_t h = A.size() / 2;
    for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < A.size(); ++j) sym_assert(near(d[i][j], {std::sqrt(mag(A[i][j]) * mag(A[i][j]) + mag(A[i + h][j]) * mag(A[i + h][j])), 0}), "reduce garbage of a matrix");
    break;
  }
  case 10: { Cx s; for (size_t i = 0; i < A.size(); ++i) s = s + A[i][i]; const auto t = p.trace(ea, n); sym_assert(near({t.r * A.size(), t.i * A.size()}, s), "trace"); break; }
  default: {
    p.resize(n + 1);
    const DM x = matK(l, 1);
    const auto o = mk(x);
    const auto r = p.kronecker(ea, o, 1);
    DM want(2 * A.size(), SV(2 * A.size()));
    for (unsigned i = 0; i < want.size(); ++i) for (unsigned j = 0; j < want.size(); ++j) want[i][j] = A[i >> 1][j >> 1] * x[i & 1][j & 1];
    sym_assert(nearM(dense(r, n + 1), want, 1e-8), "Kronecker product of matrices");
    p.decRef(o);
  }
  }
  p.decRef(ea); p.decRef(eb);
}
HARNESS(ddStale) { // results never come from nodes that have been collected
  World w(2);
  const unsigned steps = sym_tier() ? 4 : 3;
  const unsigned f0 = pin("function", 0, 11);
  for (unsigned i = 0; i < steps; ++i) {
    const unsigned f = i == 0 || i + 1 == steps ? f0 : pin("function", 0, 11);
    compute(w, f, i == 0 || i + 1 == steps || sym_tier() ? pin("operands", 0, 2) : 1);
    if (i + 1 < steps) switch (pin("then", 0, 2)) {
      case 1: w.p.garbageCollect(true); sym_assert(w.p.vUniqueTable.getNumEntries() == 0, "unreferenced nodes survive a collection"); sym_cover("collect"); break;
      case 2: w.p.reset(); sym_cover("reset"); break;
      default: break;
      }
  }
}
HARNESS(ddStaleStatic) { // the same if no number is ever collected
  World w(2);
  const unsigned f0 = pin("function", 0, 15);
  // three rounds: released nodes are handed out again in reverse order, so that
  // the third round sees the addresses of the first one
  const bool three = pinB("three");
  const unsigned steps = three ? 3 : 2;
  for (unsigned i = 0; i < steps; ++i) {
    compute(w, i == 1 && three && sym_tier() ? pin("function", 0, 11) : f0, pin("operands", 3, 8));
    if (i == 0 && !three && pinB("twice")) compute(w, f0, pin("operands", 3, 8));
    w.p.garbageCollect(true);
    sym_assert((w.hasOne || w.p.vUniqueTable.getNumEntries() == 0) && (w.hasGate || w.p.mUniqueTable.getNumEntries() == 0), "unreferenced nodes survive a collection");
    if (w.hasOne || w.hasGate) sym_cover("kept");
  }
  sym_cover("static");
}
// ---------------------------------------------------------------- reference counts
struct Held { dd::vEdge v; dd::mEdge m; bool vec; SV sv; DM dm; };
static void checkHeld(const std::vector<Held> &h, unsigned n) {
  for (auto &x : h) sym_assert(x.vec ? nearSV(dense(x.v, n), x.sv, 1e-8) : nearM(dense(x.m, n), x.dm, 1e-8), "a referenced decision diagram changed");
}
template <class N> static void reach(const dd::Edge<N> &e, std::set<const N *> &nodes, std::set<const dd::RealNumber *> &nums) {
  for (auto *r : {e.w.r, e.w.i}) { auto *a = dd::RealNumber::getAlignedPointer(r); if (!dd::constants::isStaticNumber(a)) nums.insert(a); }
  if (e.isTerminal() || !nodes.insert(e.p).second) return;
  for (auto &c : e.p->e) reach(c, nodes, nums);
}
HARNESS(ddRefs) {
  const unsigned n = 2;
  dd::Package p(n, smallCfg());
  std::vector<Held> h;
  const unsigned steps = sym_tier() ? 6 : 4;
  for (unsigned s = 0; s < steps; ++s) {
    const unsigned what = s + 1 == steps ? 7 : pin("step", 0, 7);
    if (what == 0) { const unsigned k = pin("k", 0, 1); const SV v = vecK(k, n); h.push_back({p.makeStateFromVector(cvec(v)), {}, true, v, {}}); }
    else if (what == 1) { const unsigned k = 1 + pin("k", 0, 1); const DM m = matK(k, n); auto e = p.makeDDFromMatrix(cmat(m)); p.incRef(e); h.push_back({{}, e, false, {}, m}); }
    else if (what == 2) { // apply a gate to the newest one
      sym_assume(!h.empty());
      auto &x = h.back();
      const DM g = gateM(H, 1, n);
      const auto ge = p.makeGateDD(dd::GateMatrix{dd::SQRT2_2, dd::SQRT2_2, dd::SQRT2_2, -dd::SQRT2_2}, 1);
      if (x.vec) { x.v = p.applyOperation(ge, x.v); x.sv = mul(g, x.sv); } else { const bool left = pinB("left"); x.m = p.applyOperation(ge, x.m, left); x.dm = left ? mul(g, x.dm) : mul(x.dm, g); }
    } else if (what == 3) { // share: hold the newest one once more
      sym_assume(!h.empty());
      auto x = h.back();
      if (x.vec) p.incRef(x.v); else p.incRef(x.m);
      h.push_back(x);
    } else if (what == 4) { // release the oldest
      sym_assume(!h.empty());
      if (h[0].vec) p.decRef(h[0].v); else p.decRef(h[0].m);
      h.erase(h.begin());
    } else if (what == 5) { // reduce the newest one
      sym_assume(!h.empty());
      auto &x = h.back();
      std::vector<bool> g(n); g[n - 1] = true;
      if (x.vec) { x.v = p.reduceGarbage(x.v, g); x.sv = dense(x.v, n); }
      else { x.m = pinB("ancilla") ? p.reduceAncillae(x.m, g) : p.reduceGarbage(x.m, g); x.dm = dense(x.m, n); }
    } else if (what == 6) { // an identity with a factor: reductions and phases of terminals
      auto e = dd::mEdge::terminal(p.cn.lookup(0.3, 0.4));
      p.incRef(e);
      std::vector<bool> g(n); g[pin("q", 0, n - 1)] = true;
      e = pinB("ancilla") ? p.reduceAncillae(e, g) : p.reduceGarbage(e, g, true, pinB("magnitudes"));
      h.push_back({{}, e, false, {}, dense(e, n)});
    } else {
      p.garbageCollect(true);
      std::set<const dd::vNode *> vn; std::set<const dd::mNode *> mn; std::set<const dd::RealNumber *> nums;
      for (auto &x : h) { if (x.vec) reach(x.v, vn, nums); else reach(x.m, mn, nums); }
      sym_assert(p.vUniqueTable.getNumEntries() == vn.size(), "the vector nodes left after a collection are not the referenced ones");
      sym_assert(p.mUniqueTable.getNumEntries() == mn.size(), "the matrix nodes left after a collection are not the referenced ones");
      bool half = false;
      for (auto *r : nums) half = half || r->value == 0.5;
      sym_assert(p.cUniqueTable.getStats().numEntries == nums.size() + (half ? 0 : 1), "the numbers left after a collection are not the referenced ones");
      sym_cover("collected");
    }
    checkHeld(h, n);
  }
}
HARNESS(ddReset) { // a package is as good as new after a reset
  const unsigned n = 2;
  dd::Package p(n, smallCfg());
  const unsigned a = pin("before", 0, 2), b = pin("after", 0, 2);
  std::vector<dd::vEdge> keep;
  for (unsigned k = 0; k <= a; ++k) { keep.push_back(p.makeStateFromVector(cvec(vecK(k, n)))); p.incRef(p.makeDDFromMatrix(cmat(matK(k, n)))); }
  if (pinB("total")) { p.clearUniqueTables(); p.clearComputeTables(); p.resetMemoryManagers(true); } else p.reset();
  std::vector<Held> h;
  for (unsigned k = 0; k <= b; ++k) {
    const SV v = vecK((k + 1) % 3, n); const DM m = matK((k + 2) % 3, n);
    h.push_back({p.makeStateFromVector(cvec(v)), {}, true, v, {}});
    auto e = p.makeDDFromMatrix(cmat(m)); p.incRef(e);
    h.push_back({{}, e, false, {}, m});
  }
  checkHeld(h, n);
  for (unsigned r = 0; r < 2; ++r) {
    p.garbageCollect(true);
    for (unsigned k = 0; k < 2; ++k) (void)p.makeDDFromMatrix(cmat(matK(3 + k, n))); // allocate over what was collected
    checkHeld(h, n);
  }
  for (auto &x : h) { if (x.vec) p.decRef(x.v); else p.decRef(x.m); }
  p.garbageCollect(true);
  sym_assert(p.vUniqueTable.getNumEntries() == 0 && p.mUniqueTable.getNumEntries() == 0, "nodes that are no longer referenced survive");
  sym_cover("reset");
}
