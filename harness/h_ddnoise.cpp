// Density matrices and noise: decision diagrams against dense Kraus channels.
#include "ddgen.h"
#include <cstring>
#include "dd/NoiseFunctionality.hpp"
static std::vector<double> gDraws;
static size_t gPos;
static int gMode; // 0: symbolic draws, 1: draws from a grid
static std::vector<unsigned> gGrid;
static double gStep;
double vp_draw() {
  if (gMode == 0) { while (gDraws.size() <= gPos) { gDraws.push_back(sym_real("draw", 0, 1)); sym_assume(gDraws.back() < 1); } return gDraws[gPos++]; }
  if (gGrid.size() <= gPos) gGrid.push_back(0);
  return (gGrid[gPos++] + 0.5) * gStep;
}
static DM outer(const SV &v) { DM m(v.size(), SV(v.size())); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) m[i][j] = v[i] * Cx{v[j].re, -v[j].im}; return m; }
static DM conj(const DM &u, const DM &r) { return mul(u, mul(r, adj(u))); }
static double traceOf(const DM &r) { double s = 0; for (size_t i = 0; i < r.size(); ++i) s += r[i][i].re; return s; }
static DM channel(const DM &r, char k, double p, unsigned q, unsigned n) {
  const double s = std::sqrt(p), c = std::sqrt(1 - p);
  switch (k) {
  case 'A': return plus(conj(opM(m2({1, 0}, {0, 0}, {0, 0}, {c, 0}), {q}, n), r), conj(opM(m2({0, 0}, {s, 0}, {0, 0}, {0, 0}), {q}, n), r));
  case 'P': return plus(times({1 - p, 0}, r), times({p, 0}, conj(opM(refGate(Z, {}), {q}, n), r)));
  case 'D': { DM o = times({1 - 0.75 * p, 0}, r); for (auto t : {X, Y, Z}) o = plus(o, times({0.25 * p, 0}, conj(opM(refGate(t, {}), {q}, n), r))); return o; }
  default: return r;
  }
}
static DM noisy(DM r, const char *fx, const std::set<Qubit> &qs, double p, double a, unsigned n) {
  for (auto q : qs) for (const char *k = fx; *k; ++k) r = channel(r, *k, *k == 'A' ? a : p, q, n);
  return r;
}
static std::unique_ptr<Operation> someOp(unsigned n, const char *nm) {
  const auto q = [&] { return (Qubit)pin("q", 0, n - 1); };
  switch (pin(nm, 0, n > 1 ? (sym_tier() ? 8 : 6) : 3)) {
  case 0: return std::make_unique<StandardOperation>(q(), H);
  case 1: return std::make_unique<StandardOperation>(q(), X);
  case 2: return std::make_unique<StandardOperation>(q(), RX, std::vector<fp>{0.7});
  case 3: return std::make_unique<StandardOperation>(q(), S);
  case 4: { const Qubit a = q(), b = (a + 1 + (n > 2 ? pin("d", 0, n - 2) : 0)) % n; return std::make_unique<StandardOperation>(Control{a, pinB("pos") ? Control::Type::Pos : Control::Type::Neg}, b, X); }
  case 5: { const Qubit a = q(); return std::make_unique<StandardOperation>(a, I); }
  case 6: { const Qubit a = q(), b = (a + 1) % n; return std::make_unique<StandardOperation>(Targets{a, b}, SWAP); }
  case 7: { const Qubit a = q(), b = (a + 1) % n; return std::make_unique<StandardOperation>(Control{a}, b, H); }
  default: { const Qubit a = q(), b = (a + 1) % n; return std::make_unique<StandardOperation>(Targets{a, b}, iSWAP); }
  }
}
static void compare(dd::Package &p, dd::dEdge &e, const DM &want, unsigned n) {
  const unsigned d = 1U << n;
  const auto m = e.getMatrix(n);
  for (unsigned i = 0; i < d; ++i) for (unsigned j = 0; j < d; ++j) {
    sym_assert(std::fabs(m[i][j].real() - want[i][j].re) < 1e-9 && std::fabs(m[i][j].imag() - want[i][j].im) < 1e-9, "the density matrix is not the one of the circuit and its noise");
    const auto x = e.getValueByIndex(n, i, j);
    sym_assert(std::fabs(x.real() - want[i][j].re) < 1e-9 && std::fabs(x.imag() - want[i][j].im) < 1e-9, "reading one entry of a density matrix gives another value");
  }
  const auto s = e.getSparseMatrix(n, 1e-9);
  for (unsigned i = 0; i < d; ++i) for (unsigned j = 0; j < d; ++j) {
    const auto it = s.find({i, j});
    const auto x = it == s.end() ? std::complex<double>{} : it->second;
    sym_assert(std::fabs(x.real() - want[i][j].re) < 1e-8 && std::fabs(x.imag() - want[i][j].im) < 1e-8, "the sparse density matrix has another entry");
  }
  const auto v = e.getSparseProbabilityVector(n, 1e-9);
  const auto w = e.getSparseProbabilityVectorStrKeys(n, 1e-9);
  size_t cnt = 0;
  for (unsigned i = 0; i < d; ++i) {
    const double pr = want[i][i].re;
    const auto it = v.find(i);
    sym_assert(std::fabs((it == v.end() ? 0. : it->second) - pr) < 1e-8, "the probability of an outcome is wrong");
    std::string k(n, '0');
    for (unsigned q = 0; q < n; ++q) if (i >> q & 1U) k[n - 1 - q] = '1';
    const auto jt = w.find(k);
    sym_assert(std::fabs((jt == w.end() ? 0. : jt->second) - pr) < 1e-8, "the probability of an outcome, by its string, is wrong");
    cnt += jt != w.end();
  }
  sym_assert(cnt == w.size(), "a probability has a key that is no outcome");
  const auto t = p.trace(e, n);
  sym_assert(std::fabs(t.r - traceOf(want)) < 1e-9 && std::fabs(t.i) < 1e-9, "the trace of a density matrix is wrong");
}
static const char *effects() {
  static const char *const k[] = {"A", "P", "D", "APD", "DA", "", "PIA", "DD"};
  return k[pin("effects", 0, 7)];
}
static void runOp(dd::Package &p, dd::dEdge &e, DM &r, const Operation &op, unsigned n) {
  p.applyOperationToDensity(e, dd::getDD(op, p));
  DM u(1U << n, SV(1U << n));
  for (unsigned c = 0; c < (1U << n); ++c) { SV v = basis(n, c); applyOpSV(v, op); for (unsigned i = 0; i < v.size(); ++i) u[i][c] = v[i]; }
  r = conj(u, r);
}
static void prep(dd::Package &p, dd::dEdge &e, DM &r, unsigned n) {
  switch (pin("prepared", n == 3 && !sym_tier() ? 1 : 0, n == 3 && !sym_tier() ? 2 : 3)) {
  case 0: break;
  case 1: for (Qubit q = 0; q < n; ++q) runOp(p, e, r, StandardOperation(q, RX, {0.4 + q}), n); for (Qubit q = 0; q + 1 < n; ++q) runOp(p, e, r, StandardOperation(Control{q}, q + 1, Y), n); break;
  case 2: runOp(p, e, r, StandardOperation(0, H), n); for (Qubit q = 0; q + 1 < n; ++q) runOp(p, e, r, StandardOperation(Control{q}, q + 1, X), n); break;
  default: for (Qubit q = 0; q < n; ++q) runOp(p, e, r, StandardOperation(q, H), n); break;
  }
}
struct Probs { double p1, p2, a1, a2; };
static Probs someProbs(const char *&fx) { // a noise model
  static const Probs k[] = {{0.1, 0.2, 0.15, 0.3}, {1, 1, 1, 1}, {0.5, 0.5, 0.5, 0.5}, {0, 0.25, 0, 0.25}};
  static const struct { unsigned k; const char *fx; } m[] = {{0, "A"}, {1, "A"}, {0, "P"}, {2, "P"}, {0, "D"}, {1, "D"}, {0, "APD"}, {3, "DA"}};
  if (sym_tier()) { fx = effects(); return k[pin("probabilities", 0, 3)]; }
  const auto &c = m[pin("model", 0, 7)];
  fx = c.fx;
  return k[c.k];
}
static dd::DDPackageConfig noiseCfg() { auto c = smallCfg(); c.stochasticCacheOps = qc::OpType::OpTypeEnd; return c; }
HARNESS(ddNoiseDet) {
  const unsigned n = pin("n", 1, 2);
  const char *fx = nullptr;
  const auto pr = someProbs(fx);
  dd::Package p(n, noiseCfg());
  dd::DeterministicNoiseFunctionality nf(p, n, pr.p1, pr.p2, pr.a1, pr.a2, fx);
  auto e = p.makeZeroDensityOperator(n);
  DM r = outer(basis(n, 0));
  prep(p, e, r, n);
  const unsigned steps = sym_tier() && n == 1 ? 3 : 2;
  for (unsigned s = 0; s < steps; ++s) {
    const auto op = someOp(n, "op");
    runOp(p, e, r, *op, n);
    nf.applyNoiseEffects(e, op);
    const auto qs = op->getUsedQubits();
    r = noisy(r, fx, qs, qs.size() > 1 ? pr.p2 : pr.p1, qs.size() > 1 ? pr.a2 : pr.a1, n);
    if (s == 0 && pinB("collect")) { p.garbageCollect(true); sym_cover("collected"); }
  }
  compare(p, e, r, n);
  sym_cover("noisy");
}
HARNESS(ddNoiseDet3) {
  const unsigned n = 3;
  const char *fx = nullptr;
  const auto pr = someProbs(fx);
  dd::Package p(n, noiseCfg());
  dd::DeterministicNoiseFunctionality nf(p, n, pr.p1, pr.p2, pr.a1, pr.a2, fx);
  auto e = p.makeZeroDensityOperator(n);
  DM r = outer(basis(n, 0));
  prep(p, e, r, n);
  const unsigned steps = 1;
  for (unsigned s = 0; s < steps; ++s) {
    const auto op = someOp(n, "op");
    runOp(p, e, r, *op, n);
    nf.applyNoiseEffects(e, op);
    const auto qs = op->getUsedQubits();
    r = noisy(r, fx, qs, qs.size() > 1 ? pr.p2 : pr.p1, qs.size() > 1 ? pr.a2 : pr.a1, n);
  }
  const auto op = someOp(n, "op");
  runOp(p, e, r, *op, n);
  compare(p, e, r, n);
  sym_cover("noisy");
}
// results are never taken from density matrices that have been collected
HARNESS(ddDensStale) {
  const unsigned n = 2;
  static const char *const k[] = {"A", "P", "D", "AD"};
  const char *fx = k[pin("effects", 0, 3)];
  const double pr = pinB("half") ? 0.5 : 0.3;
  dd::Package p(n, noiseCfg());
  dd::DeterministicNoiseFunctionality nf(p, n, pr, pr, pr, pr, fx);
  const unsigned rounds = sym_tier() ? 3 : 2;
  for (unsigned s = 0; s < rounds; ++s) {
    auto e = p.makeZeroDensityOperator(n);
    DM r = outer(basis(n, 0));
    const unsigned b = pin("state", 0, 3), what = pin("what", 0, 2);
    for (Qubit q = 0; q < n; ++q) if (b >> q & 1U) runOp(p, e, r, StandardOperation(q, X), n);
    if (what == 1) runOp(p, e, r, StandardOperation(0, H), n);
    if (what == 2) { runOp(p, e, r, StandardOperation(1, H), n); runOp(p, e, r, StandardOperation(Control{1}, 0, X), n); }
    const std::unique_ptr<Operation> op = std::make_unique<StandardOperation>(pin("q", 0, n - 1), Z);
    runOp(p, e, r, *op, n);
    nf.applyNoiseEffects(e, op);
    r = noisy(r, fx, op->getUsedQubits(), pr, pr, n);
    compare(p, e, r, n);
    dd::dEdge::alignDensityEdge(e);
    p.decRef(e);
    // other diagrams may keep using the same numbers: then only nodes are collected
    if (s == 0 && pinB("keep")) { for (auto* num : p.cUniqueTable.getTable()) for (; num != nullptr; num = num->next()) p.cUniqueTable.incRef(num); sym_cover("kept"); }
    if (s + 1 == rounds || pinB("collect")) { p.garbageCollect(true); sym_assert(p.dUniqueTable.getNumEntries() == 0, "density matrix nodes that are no longer referenced survive"); sym_cover("collected"); }
  }
}
HARNESS(ddDensMeasure) {
  sym_real_mode();
  gMode = 0; gDraws.clear(); gPos = 0;
  const unsigned n = pin("n", 1, sym_tier() ? 3 : 2);
  const char *fx = nullptr;
  const auto pr = someProbs(fx);
  dd::Package p(n, noiseCfg());
  dd::DeterministicNoiseFunctionality nf(p, n, pr.p1, pr.p2, pr.a1, pr.a2, fx);
  auto e = p.makeZeroDensityOperator(n);
  DM r = outer(basis(n, 0));
  prep(p, e, r, n);
  const std::unique_ptr<Operation> op = n > 1 && pinB("two") ? std::make_unique<StandardOperation>(Control{1}, 0, X) : std::make_unique<StandardOperation>(pin("q", 0, n - 1), RX, std::vector<fp>{0.9});
  runOp(p, e, r, *op, n);
  nf.applyNoiseEffects(e, op);
  const auto qs = op->getUsedQubits();
  r = noisy(r, fx, qs, qs.size() > 1 ? pr.p2 : pr.p1, qs.size() > 1 ? pr.a2 : pr.a1, n);
  std::mt19937_64 mt;
  for (unsigned k = 0; k < 2; ++k) {
    const unsigned q = pin("measured", 0, n - 1);
    DM z = conj(opM(kP0, {q}, n), r);
    const double p0 = traceOf(z);
    const double d = (vp_draw(), gDraws[gPos - 1]);
    --gPos;
    const bool one = !(d < p0 - 1e-6);
    if (one) { sym_assume(d > p0 + 1e-6); z = conj(opM(m2({0, 0}, {0, 0}, {0, 0}, {1, 0}), {q}, n), r); }
    const char c = p.measureOneCollapsing(e, q, mt);
    sym_assert(c == (one ? '1' : '0'), "measuring a qubit of a density matrix gives an outcome that this draw does not select");
    r = times({1 / traceOf(z), 0}, z);
    compare(p, e, r, n);
  }
  sym_cover("measured");
}
// the average over all draws of a grid is the noisy channel
struct StochRun { dd::Package &p; dd::StochasticNoiseFunctionality &nf; const Operation &op; SV in; unsigned n; bool collect; };
static DM average(const StochRun &s) {
  DM acc = zeroM(s.n);
  gMode = 1; gGrid.clear();
  const auto N = (unsigned)(1 / gStep + 0.5);
  std::mt19937_64 mt;
  while (true) {
    gPos = 0;
    auto e = s.p.makeStateFromVector(cvec(s.in)); // holds a reference
    s.nf.applyNoiseOperation(s.op.getUsedQubits(), dd::getDD(s.op, s.p), e, mt);
    const SV v = dense(e, s.n);
    gGrid.resize(gPos);
    double w = 1;
    for (size_t i = 0; i < gPos; ++i) w *= gStep;
    sym_assert(std::fabs(norm2(v) - 1) < 1e-9, "a noisy state is not normalised");
    acc = plus(acc, times({w, 0}, outer(v)));
    s.p.decRef(e);
    while (!gGrid.empty() && gGrid.back() + 1 == N) gGrid.pop_back();
    if (gGrid.empty()) break;
    ++gGrid.back();
    if (s.collect) s.p.garbageCollect(true);
  }
  gMode = 0;
  return acc;
}
static SV stochInput(unsigned n) {
  SV v(1U << n);
  switch (pin("input", 0, 3)) {
  case 0: return basis(n, 0);
  case 1: return basis(n, (1U << n) - 1);
  case 2: v[0] = {R2, 0}; v[v.size() - 1] = {0, R2}; return v; // probabilities of 1/2
  default: return basis(n, n - 1);
  }
}
HARNESS(ddNoiseStoch) {
  const unsigned n = pin("n", 1, 2);
  static const char *const k[] = {"P", "D", "A", "AP", "DA", "I", "AD", "PDA", "PI"};
  const char *fx = k[pin("effects", 0, sym_tier() ? 8 : 4)];
  const unsigned cfg = pin("probabilities", 0, 3);
  const double p1 = cfg == 0 ? 0.5 : cfg == 1 ? 1 : cfg == 2 ? 0.25 : 0, a1 = cfg == 0 ? 0.25 : cfg == 1 ? 1 : 0.5, f = cfg == 1 ? 1 : 2;
  const bool hasA = std::strchr(fx, 'A') != nullptr, hasD = std::strchr(fx, 'D') != nullptr;
  gStep = cfg == 1 ? 0.25 : hasD && cfg == 2 ? 0.0625 : 0.125;
  dd::Package p(n, noiseCfg());
  if (pinB("other noise before")) { // another noise model in the same package
    dd::StochasticNoiseFunctionality other(p, n, 0.125, 0.125, 4, "APD");
    std::mt19937_64 mt;
    gMode = 1; gGrid.clear(); gPos = 0;
    auto e = p.makeStateFromVector(cvec(stochInput(n)));
    const StandardOperation id(0, H);
    other.applyNoiseOperation({0}, dd::getDD(id, p), e, mt);
    if (n > 1) { gGrid.clear(); gPos = 0; const StandardOperation cx(Control{0}, 1, X); other.applyNoiseOperation({0, 1}, dd::getDD(cx, p), e, mt); }
    p.decRef(e);
    sym_cover("two models");
  }
  dd::StochasticNoiseFunctionality nf(p, n, p1, a1, f, fx);
  const SV in = stochInput(n);
  const bool two = n == 2 && pinB("two");
  const std::unique_ptr<Operation> op = two ? std::make_unique<StandardOperation>(Control{1}, 0, X) : std::make_unique<StandardOperation>(pin("q", 0, n - 1), pinB("x") ? X : I);
  if (two && ((hasA && norm2(in) - in[0].re * in[0].re > 0.1 && in[0].re > 0.1) || (cfg != 1 && (fx[1] != 0 || hasD)))) return; // probabilities beside the grid, or too many runs
  SV u = in;
  applyOpSV(u, *op);
  const DM want = noisy(outer(u), fx, op->getUsedQubits(), two ? p1 * f : p1, two ? a1 * f : a1, n);
  const DM got = average({p, nf, *op, in, n, !two && pinB("collect")});
  sym_assert(nearM(got, want, 1e-8), "the average of the noisy states is not the noisy channel");
  sym_cover("averaged");
}
