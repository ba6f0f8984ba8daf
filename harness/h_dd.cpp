// Decision diagrams of gates and circuits denote the gates and circuits.
#include "ddsem.h"
using namespace qc;
using QC = QuantumComputation;
static std::unique_ptr<Operation> g1(OpType t, Qubit q, std::vector<fp> p = {}) { return std::make_unique<StandardOperation>(q, t, p); }
static std::unique_ptr<Operation> gc(OpType t, Control c, Qubit q, std::vector<fp> p = {}) { return std::make_unique<StandardOperation>(Controls{c}, q, t, p); }
static std::unique_ptr<Operation> g2(OpType t, Qubit a, Qubit b, std::vector<fp> p = {}, Controls c = {}) { return std::make_unique<StandardOperation>(c, a, b, t, p); }
template <class... A> static std::unique_ptr<Operation> comp(A &&...a) { auto c = std::make_unique<CompoundOperation>(); (c->emplace_back(std::forward<A>(a)), ...); return c; }
static const Control::Type NEG = Control::Type::Neg;
static const unsigned kPerm3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static DM denseOp(const Operation &o, unsigned n) { return transposed(unitary(o, n)); }
// ------------------------------------------------------- gates
HARNESS(ddGate) {
  const unsigned n = sym_tier() ? 4 : 3;
  GateCfg g;
  const unsigned k = pin("gate", 0, (unsigned)(std::size(kOne) + std::size(kTwo)));
  if (k == std::size(kOne) + std::size(kTwo)) g.t = GPhase; else g.t = k < std::size(kOne) ? kOne[k] : kTwo[k - std::size(kOne)];
  if (g.t == GPhase) { for (unsigned q = 0; q < n; ++q) { const unsigned c = pin("ctrl", 0, 2); if (c) g.c.emplace(Control{q, c == 1 ? Control::Type::Pos : NEG}); } }
  else pickQubits(g, n, isTwo(g.t) ? 2 : 1, n, 2);
  concAngles(g, sym_tier() ? 3 : 1);
  const auto op = makeStd(g);
  dd::Package p(n, smallCfg());
  const DM want = denseOp(*op, n);
  sym_assert(nearM(dense(dd::getDD(*op, p), n), want), "the decision diagram of a gate is not the gate");
  sym_assert(nearM(dense(dd::getInverseDD(*op, p), n), adj(want)), "the inverse decision diagram of a gate is not its inverse");
  sym_cover(g.c.empty() ? "plain" : "controlled");
}
// ------------------------------------------------------- circuits
static std::unique_ptr<Operation> unitOp(unsigned hi = 15) { // 3 qubits
  switch (pin("op", 0, hi)) {
  case 0: return g1(H, 0);
  case 1: return g1(RY, 1, {0.7});
  case 2: return gc(X, Control{0}, 1);
  case 3: return g2(SWAP, 0, 1);
  case 4: return g2(SWAP, 1, 2);
  case 5: return gc(RX, Control{2, NEG}, 0, {0.4});
  case 6: return g1(T, 2);
  case 7: return comp(g1(H, 1), g2(SWAP, 0, 2));
  case 8: return g1(I, 1);
  case 9: return std::make_unique<StandardOperation>(Controls{}, std::vector<Qubit>{}, GPhase, std::vector<fp>{0.6});
  case 10: return std::make_unique<StandardOperation>(Controls{Control{1}}, std::vector<Qubit>{}, GPhase, std::vector<fp>{0.6});
  case 11: return g2(iSWAP, 2, 0);
  case 12: return std::make_unique<StandardOperation>(std::vector<Qubit>{0, 1}, Barrier);
  case 13: return g2(SWAP, 0, 2, {}, Controls{Control{1}});
  case 14: return comp(comp(gc(Z, Control{0}, 2)), g1(Y, 1));
  default: return std::make_unique<StandardOperation>(Controls{Control{0}, Control{2}}, (Qubit)1, H);
  }
}
// columns of the circuit between logical inputs and logical outputs
static DM logicalM(const QC &c) {
  const unsigned n = (unsigned)c.getNqubits();
  DM m(1U << n, SV(1U << n));
  for (unsigned x = 0; x < (1U << n); ++x) {
    unsigned px = 0;
    for (const auto &[p, l] : c.initialLayout) px |= (x >> l & 1U) << p;
    Ens e{Branch{0, basis(n, px)}};
    for (auto &o : c) applyOp(e, *o);
    for (unsigned y = 0; y < (1U << n); ++y) { unsigned l = 0; for (const auto &[p, q] : c.outputPermutation) l |= (y >> p & 1U) << q; m[l][x] = e[0].v[y]; }
  }
  return m;
}
static void setLayout(QC &c, unsigned li, unsigned lo) {
  c.initialLayout.clear(); c.outputPermutation.clear();
  for (unsigned p = 0; p < 3; ++p) { c.initialLayout[p] = kPerm3[li][p]; c.outputPermutation[p] = kPerm3[lo][p]; }
}
static void scale(SV &v, double g) { for (auto &x : v) x = x * cis(g); }
HARNESS(ddBuild) {
  QC c(3);
  const unsigned len = pin("len", 0, sym_tier() ? 3 : 2);
  setLayout(c, pin("layout", 0, len < 2 || sym_tier() ? 5 : 0), pin("output", 0, len < 2 || sym_tier() ? 5 : 3));
  for (unsigned i = 0; i < len; ++i) c.emplace_back(unitOp());
  const DM want = logicalM(c);
  dd::Package p(3, smallCfg());
  const auto f = dd::buildFunctionality(c, p);
  sym_assert(nearM(dense(f, 3), want), "the functionality built is not that of the circuit");
  const auto r = dd::buildFunctionalityRecursive(c, p);
  sym_assert(nearM(dense(r, 3), want), "the functionality built recursively is not that of the circuit");
  sym_assert(f == r, "both constructions of the functionality differ");
  const SV in = normed(genericState(3));
  if (pinB("phase")) c.gphase(0.3);
  auto s = p.makeStateFromVector(cvec(in));
  const auto o = dd::simulate(c, s, p);
  SV w = mul(want, in); scale(w, c.getGlobalPhase());
  sym_assert(nearSV(dense(o, 3), w), "simulation does not give the circuit's output");
  sym_cover("circuit");
}
HARNESS(ddBuildLong) { // trees of the recursive construction
  QC c(3);
  const unsigned len = pin("len", 3, 7), k = pin("start", 0, 15);
  for (unsigned i = 0; i < len; ++i) {
    const unsigned m = (k + i * 5) % 6;
    if (m == 0) c.h(0); else if (m == 1) c.cx(0, 1); else if (m == 2) c.swap(1, 2); else if (m == 3) c.rx(0.3 * i, 2); else if (m == 4) c.cx(Control{2, NEG}, 0); else c.t(1);
  }
  const bool sw = pinB("swap");
  if (sw) c.swap(0, 2);
  dd::Package p(3, smallCfg());
  const auto f = dd::buildFunctionality(c, p), r = dd::buildFunctionalityRecursive(c, p);
  const DM want = logicalM(c);
  sym_assert(nearM(dense(f, 3), want) && nearM(dense(r, 3), want), "the functionality built is not that of the circuit");
  sym_cover("circuit");
}
HARNESS(ddAncilla) { // ancillary inputs are fixed to 0, garbage outputs are summed over
  QC c(3);
  const unsigned len = sym_tier() ? 3 : 2;
  for (unsigned i = 0; i < len; ++i) c.emplace_back(unitOp(7));
  const DM m = logicalM(c);
  const unsigned anc = pin("ancillae", 0, 7), gar = pin("garbage", 0, 7);
  for (unsigned q = 0; q < 3; ++q) { if (anc >> q & 1) c.setLogicalQubitAncillary(q); if (gar >> q & 1) c.setLogicalQubitGarbage(q); }
  for (unsigned q = 0; q < 3; ++q) sym_assert(c.getAncillary()[q] == ((anc >> q & 1) != 0) && c.getGarbage()[q] == ((gar >> q & 1) != 0), "marking qubits");
  dd::Package p(3, smallCfg());
  const bool rec = pinB("recursive");
  const auto f = rec ? dd::buildFunctionalityRecursive(c, p) : dd::buildFunctionality(c, p);
  const DM d = dense(f, 3);
  for (unsigned x = 0; x < 8; ++x) for (unsigned y = 0; y < 8; ++y) {
    double want = 0;
    if (!(x & anc) && !(y & gar)) for (unsigned g = gar;; g = (g - 1) & gar) { const Cx a = m[y | g][x]; want += a.re * a.re + a.im * a.im; if (!g) break; }
    const double got = d[y][x].re * d[y][x].re + d[y][x].im * d[y][x].im;
    sym_assert(std::fabs(want - got) < 1e-9, "ancillary or garbage qubits are not reduced as documented");
    if (!gar && !(x & anc)) sym_assert(std::fabs(d[y][x].re - m[y][x].re) + std::fabs(d[y][x].im - m[y][x].im) < 1e-9, "reducing ancillae changes other entries");
  }
  const SV in = normed(genericState(3));
  auto s = p.makeStateFromVector(cvec(in));
  const SV o = dense(dd::simulate(c, s, p), 3), w = mul(m, in);
  for (unsigned y = 0; y < 8; ++y) {
    double want = 0;
    if (!(y & gar)) for (unsigned g = gar;; g = (g - 1) & gar) { want += w[y | g].re * w[y | g].re + w[y | g].im * w[y | g].im; if (!g) break; }
    sym_assert(std::fabs(o[y].re * o[y].re + o[y].im * o[y].im - want) < 1e-9, "garbage qubits of a state are not reduced as documented");
  }
  sym_cover(anc && gar ? "both" : "one");
}
// ------------------------------------------------------- states
HARNESS(ddStates) {
  const unsigned n = pin("n", 1, 4), what = pin("what", 0, 5);
  dd::Package p(n + 1, smallCfg());
  SV want(1U << n);
  dd::vEdge e;
  switch (what) {
  case 0: e = p.makeZeroState(n); want[0] = {1, 0}; break;
  case 1: { std::vector<bool> b; unsigned x = 0; for (unsigned q = 0; q < n; ++q) { b.push_back(pinB("bit")); x |= (unsigned)b[q] << q; } e = p.makeBasisState(n, b); want[x] = {1, 0}; break; }
  case 2: e = p.makeGHZState(n); want[0] = want[want.size() - 1] = {n ? R2 : 1, 0}; break;
  case 3: e = p.makeWState(n); for (unsigned q = 0; q < n; ++q) want[1U << q] = {1 / std::sqrt((double)n), 0}; break;
  case 4: {
    std::vector<dd::BasisStates> b; want = basis(n, 0);
    for (unsigned q = 0; q < n; ++q) {
      b.push_back((dd::BasisStates)pin("basis", 0, n < 4 || sym_tier() ? 5 : 2));
      switch (b[q]) {
      case dd::BasisStates::zero: break;
      case dd::BasisStates::one: applyMat(want, refGate(X, {}), {q}, 0, 0); break;
      case dd::BasisStates::plus: applyMat(want, refGate(H, {}), {q}, 0, 0); break;
      case dd::BasisStates::minus: applyMat(want, refGate(H, {}), {q}, 0, 0); applyMat(want, refGate(Z, {}), {q}, 0, 0); break;
      case dd::BasisStates::right: applyMat(want, refGate(H, {}), {q}, 0, 0); applyMat(want, refGate(S, {}), {q}, 0, 0); break;
      case dd::BasisStates::left: applyMat(want, refGate(H, {}), {q}, 0, 0); applyMat(want, refGate(Sdg, {}), {q}, 0, 0); break;
      }
    }
    e = p.makeBasisState(n, b);
    break;
  }
  default: { // amplitudes out of {0, a, -a, ia}
    sym_assume(n <= 2 || sym_tier());
    sym_assume(n <= 3);
    bool any = false;
    for (auto &x : want) { const unsigned k = pin("amp", 0, n <= 2 ? 4 : 2); x = k == 0 ? Cx{0, 0} : k == 1 ? Cx{0.5, 0} : k == 2 ? Cx{-0.5, 0} : k == 3 ? Cx{0, 0.5} : Cx{0.25, 0.125}; any = any || k; }
    sym_assume(any);
    e = p.makeStateFromVector(cvec(want));
  }
  }
  if (what == 2 && n == 1) want[0] = want[1] = {R2, 0};
  sym_assert(nearSV(dense(e, n), want), "a state is not built as asked for");
  const auto v = e.getVector();
  for (size_t i = 0; i < v.size(); ++i) sym_assert(std::abs(v[i] - std::complex<double>(want[i].re, want[i].im)) < 1e-9, "getVector gives other amplitudes");
  sym_assert(v.size() == want.size(), "getVector has the wrong size");
  const auto sp = e.getSparseVector();
  for (size_t i = 0; i < want.size(); ++i) {
    const std::complex<double> w{want[i].re, want[i].im};
    sym_assert((sp.count(i) != 0) == (std::abs(w) > 1e-6) && (!sp.count(i) || std::abs(sp.at(i) - w) < 1e-9), "getSparseVector gives other amplitudes");
    sym_assert(std::abs(e.getValueByIndex(i) - w) < 1e-9, "getValueByIndex gives another amplitude");
    std::string path(n, '0');
    for (unsigned q = 0; q < n; ++q) if (i >> q & 1) path[q] = '1';
    sym_assert(std::abs(e.getValueByPath(n, path) - w) < 1e-9, "getValueByPath gives another amplitude");
  }
  sym_cover(what == 5 ? "vector" : "named");
}
