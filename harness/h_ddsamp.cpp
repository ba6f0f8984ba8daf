// Measurements and sampling on decision diagrams: the random draws are symbolic.
#include "ddsem.h"
using namespace qc;
using QC = QuantumComputation;
static std::vector<double> gDraws;
static size_t gPos;
static double drawAt(size_t i) {
  while (gDraws.size() <= i) { gDraws.push_back(sym_real("draw", 0, 1)); sym_assume(gDraws.back() < 1); }
  return gDraws[i];
}
double vp_draw() { return drawAt(gPos++); }
static size_t gRef;
static bool refDraw(double p0) { // outcome of the next draw
  const double d = drawAt(gRef++);
  if (d < p0 - 1e-6) return false;
  sym_assume(d > p0 + 1e-6);
  return true;
}
static void begin() { sym_real_mode(); gDraws.clear(); gPos = gRef = 0; }
static double prob(const SV &v, unsigned q, unsigned bit) { double s = 0; for (unsigned i = 0; i < v.size(); ++i) if ((i >> q & 1U) == bit) s += v[i].re * v[i].re + v[i].im * v[i].im; return s; }
static SV project(SV v, unsigned q, unsigned bit) { for (unsigned i = 0; i < v.size(); ++i) if ((i >> q & 1U) != bit) v[i] = {0, 0}; return normed(v); }
static SV someState(unsigned n, const char *nm = "state") {
  SV v(1U << n);
  switch (pin(nm, 0, 6)) {
  case 0: return normed(genericState(n));
  case 1: v[0] = {R2, 0}; v[v.size() - 1] = {0, R2}; return v;
  case 2: return basis(n, pin("index", 0, (1U << n) - 1));
  case 3: for (unsigned i = 0; i < v.size(); ++i) v[i] = {i & 1 ? -1. : 1., 0}; return normed(v);
  case 4: v = genericState(n); for (unsigned i = 0; i < v.size() / 2; ++i) v[i] = {0, 0}; return normed(v);
  case 5: v = genericState(n); for (unsigned i = 1; i < v.size(); i += 2) v[i] = v[i - 1] * Cx{0, 2}; return normed(v);
  default: for (unsigned q = 0; q < n; ++q) v[1U << q] = {std::sqrt(q + 1.0), 0}; return normed(v);
  }
}
HARNESS(ddMeasureAll) {
  begin();
  const unsigned n = sym_tier() ? pin("n", 1, 4) : pin("n", 1, 3);
  const SV v = someState(n);
  dd::Package p(n, smallCfg());
  auto e = p.makeStateFromVector(cvec(v));
  SV cur = v;
  std::string want(n, '0');
  for (unsigned q = n; q-- > 0;) { const bool b = refDraw(prob(cur, q, 0)); cur = project(cur, q, b); if (b) want[n - 1 - q] = '1'; }
  std::mt19937_64 mt;
  const bool collapse = pinB("collapse");
  const auto got = p.measureAll(e, collapse, mt);
  sym_assert(got == want, "measuring all qubits gives an outcome that this draw does not select");
  SV d = dense(e, n);
  if (collapse) { unsigned x = 0; for (unsigned q = 0; q < n; ++q) x |= (unsigned)(want[n - 1 - q] == '1') << q; sym_assert(nearSV(d, basis(n, x)), "the collapsed state is not the outcome"); sym_cover("collapsed"); }
  else { sym_assert(nearSV(d, v), "measuring without collapse changes the state"); sym_cover("kept"); }
}
HARNESS(ddMeasureOne) {
  begin();
  const unsigned n = sym_tier() ? pin("n", 1, 4) : pin("n", 1, 3);
  SV v = someState(n);
  dd::Package p(n, smallCfg());
  auto e = p.makeStateFromVector(cvec(v));
  std::mt19937_64 mt;
  const unsigned rounds = sym_tier() ? 3 : 2;
  for (unsigned r = 0; r < rounds; ++r) {
    const unsigned q = pin("qubit", 0, n - 1);
    const auto pr = p.determineMeasurementProbabilities(e, (dd::Qubit)q);
    sym_assert(std::fabs(pr.first - prob(v, q, 0)) < 1e-9 && std::fabs(pr.second - prob(v, q, 1)) < 1e-9, "the measurement probabilities are wrong");
    const bool b = refDraw(prob(v, q, 0));
    v = project(v, q, b);
    const char c = p.measureOneCollapsing(e, (dd::Qubit)q, mt);
    sym_assert(c == (b ? '1' : '0'), "measuring a qubit gives an outcome that this draw does not select");
    sym_assert(nearSV(dense(e, n), v, 1e-8), "the state after a measurement is not the projected one");
    p.garbageCollect(true);
    sym_assert(nearSV(dense(e, n), v, 1e-8), "the state after a measurement is not kept alive");
  }
  p.decRef(e);
  p.garbageCollect(true);
  sym_assert(p.vUniqueTable.getNumEntries() == 0, "measuring keeps nodes alive");
  sym_cover("measured");
}
// ---------------------------------------------------------------- circuits
static const unsigned kPerm3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
struct Ref { SV v; std::vector<bool> c; };
static void unitOp(QC &c, unsigned k) {
  const unsigned n = (unsigned)c.getNqubits();
  switch (k) {
  case 0: c.h(0); break;
  case 1: c.ry(1.0, 1); break;
  case 2: c.cx(0, 1); break;
  case 3: c.swap(0, n - 1); break;
  case 4: c.cx(Control{1, Control::Type::Neg}, 0); break;
  default: { auto o = std::make_unique<CompoundOperation>(); o->emplace_back<StandardOperation>(n - 1, H); o->emplace_back<StandardOperation>(Targets{0, 1}, SWAP); c.emplace_back(std::move(o)); }
  }
}
static void dynOp(QC &c, unsigned k) {
  switch (k) {
  case 0: case 1: case 2: case 3: case 4: case 5: unitOp(c, k); break;
  case 6: c.measure(0, 0); break;
  case 7: c.measure(1, 1); break;
  case 8: c.measure(std::vector<Qubit>{0, 1}, std::vector<Bit>{1, 0}); break;
  case 9: c.reset(0); break;
  case 10: c.classicControlled(X, (Qubit)1, (Bit)0, 1ULL); break;
  case 11: c.classicControlled(X, (Qubit)0, c.getClassicalRegisters().begin()->second, 2ULL, Geq); break;
  case 12: c.measure(1, 0); break;
  case 13: c.barrier(); break;
  case 14: c.reset(std::vector<Qubit>{0, 1}); break;
  default: c.classicControlled(H, (Qubit)0, (Bit)1, 0ULL, Eq); break;
  }
}
static bool measureAllRef(QC &c) { // does the library collapse qubit by qubit?
  bool seen = false;
  for (auto &o : c) {
    if (o->isClassicControlledOperation() || o->getType() == Reset) return false;
    if (o->getType() == Measure) seen = true;
    else if (seen) return false;
  }
  return true;
}
static SV logicalIn(const QC &c, const SV &in) { // the input is given over the logical qubits
  SV v(in.size());
  for (unsigned x = 0; x < in.size(); ++x) { unsigned px = 0; for (auto &[p, l] : c.initialLayout) px |= (x >> l & 1U) << p; v[px] = in[x]; }
  return v;
}
static std::string refShot(QC &c, const SV &in, size_t width) {
  SV v = logicalIn(c, in);
  std::vector<bool> cb(c.getNcbits());
  const unsigned n = (unsigned)c.getNqubits();
  if (measureAllRef(c)) {
    bool any = false;
    Ens e{Branch{0, v}};
    for (auto &o : c) { if (o->getType() == Measure) any = true; else applyOp(e, *o); }
    v = e[0].v;
    // draws: from the topmost logical output downwards
    std::vector<int> at(n, -1);
    for (auto &[p, l] : c.outputPermutation) at[l] = (int)p;
    std::vector<bool> out(n); // by logical output
    for (unsigned l = n; l-- > 0;) {
      if (at[l] < 0) { (void)refDraw(1); continue; }
      out[l] = refDraw(prob(v, (unsigned)at[l], 0));
      v = project(v, (unsigned)at[l], out[l]);
    }
    std::string s(width, '0');
    if (any) {
      for (auto &o : c) if (o->getType() == Measure) { auto &m = dynamic_cast<const NonUnitaryOperation &>(*o); for (size_t i = 0; i < m.getTargets().size(); ++i) s[width - 1 - m.getClassics()[i]] = out[c.outputPermutation.at(m.getTargets()[i])] ? '1' : '0'; }
    } else for (unsigned l = 0; l < n; ++l) if (out[l]) s[width - 1 - l] = '1';
    return s;
  }
  Ens e{Branch{0, v}};
  for (auto &o : c) {
    if (o->getType() == Measure || o->getType() == Reset) {
      auto &m = dynamic_cast<const NonUnitaryOperation &>(*o);
      for (size_t i = 0; i < m.getTargets().size(); ++i) {
        const unsigned q = m.getTargets()[i];
        const bool b = refDraw(prob(e[0].v, q, 0));
        e[0].v = project(e[0].v, q, b);
        if (o->getType() == Measure) { const auto bit = m.getClassics()[i]; e[0].c = (e[0].c & ~(1ULL << bit)) | (std::uint64_t)b << bit; }
        else if (b) applyMat(e[0].v, refGate(X, {}), {q}, 0, 0);
      }
    } else applyOp(e, *o);
  }
  std::string s(width, '0');
  for (unsigned b = 0; b < width; ++b) if (e[0].c >> b & 1U) s[width - 1 - b] = '1';
  return s;
}
static void shootAndCompare(QC &c, const SV &in, unsigned shots) {
  bool any = false;
  for (auto &o : c) any = any || o->getType() == Measure;
  const size_t width = any || !measureAllRef(c) ? c.getNcbits() : std::max(c.getNqubits(), c.getNcbits());
  std::map<std::string, std::size_t> want;
  for (unsigned s = 0; s < shots; ++s) ++want[refShot(c, in, width)];
  dd::Package p(c.getNqubits(), smallCfg());
  const auto e = p.makeStateFromVector(cvec(in));
  const auto got = dd::sample(c, e, p, shots, 1);
  sym_assert(got == want, "sampling does not give the outcome that these draws select");
}
HARNESS(ddSampleStatic) { // unitary circuits, measured at the end or not at all
  begin();
  const unsigned n = 3;
  QC c(n, pin("bits", 0, 4));
  const unsigned m = pin("measure", 0, 6);
  sym_assume(m == 0 || c.getNcbits() >= 3 || (m == 1 && c.getNcbits() >= 1));
  const unsigned li = pin("layout", 0, 5), lo = pin("output", 0, 5);
  if (!sym_tier()) sym_assume(li == 0 || lo == 0 || li + lo == 7);
  const unsigned len = sym_tier() ? 3 : 1;
  c.initialLayout.clear(); c.outputPermutation.clear();
  for (unsigned p = 0; p < 3; ++p) { c.initialLayout[p] = kPerm3[li][p]; c.outputPermutation[p] = kPerm3[lo][p]; }
  for (unsigned i = 0; i < len; ++i) unitOp(c, pin("op", 0, 5));
  switch (m) {
  case 1: c.measure(2, 0); break;
  case 2: c.measure(0, 1); c.measure(1, 0); break;
  case 3: c.measure(std::vector<Qubit>{0, 1, 2}, std::vector<Bit>{2, 0, 1}); break;
  case 4: c.measure(1, 0); c.measure(1, 2); break; // one qubit into two bits
  case 5: c.measure(2, 1); c.measure(0, 1); break; // two qubits into one bit
  case 6: c.measure(0, 1); c.measure(2, 1); break;
  default: break;
  }
  SV in(8); in[0] = {0.6, 0}; in[6] = {0, 0.8};
  shootAndCompare(c, in, 1);
  sym_cover(m ? "measured" : "unmeasured");
}
HARNESS(ddSampleDynamic) {
  begin();
  QC c(2, 2);
  const unsigned len = sym_tier() ? 4 : 3;
  if (pinB("swapped")) { c.initialLayout[0] = 1; c.initialLayout[1] = 0; }
  for (unsigned i = 0; i < len; ++i) dynOp(c, pin("op", i == 0 && !sym_tier() ? 6 : 0, 15));
  sym_assume(!measureAllRef(c));
  SV in = normed(genericState(2));
  shootAndCompare(c, in, 1);
  sym_cover("dynamic");
}
HARNESS(ddSampleShots) { // several shots are independent
  begin();
  QC c(2, 2);
  const unsigned k = pin("circuit", 0, 3);
  c.ry(1.0, 0);
  if (k == 0) { c.cx(0, 1); c.measure(0, 0); c.measure(1, 1); }
  if (k == 1) { c.measure(0, 0); c.classicControlled(X, (Qubit)1, (Bit)0, 1ULL); c.measure(1, 1); }
  if (k == 2) { c.measure(0, 1); c.swap(0, 1); c.reset(1); c.measure(1, 0); }
  if (k == 3) { c.measure(0, 0); c.h(0); c.measure(0, 1); }
  SV in(4); in[0] = {1, 0};
  shootAndCompare(c, in, sym_tier() ? 4 : 3);
  sym_cover("shots");
}
HARNESS(ddSampleMapped) { // measured subsets with the output permutation derived from them
  begin();
  QC c(3, 3);
  for (unsigned i = 0; i < 2; ++i) unitOp(c, pin("op", 0, 5));
  const unsigned k = pin("measured", 0, 7);
  switch (k) {
  case 0: c.measure(2, 0); break;
  case 1: c.measure(1, 0); c.measure(2, 1); break;
  case 2: c.measure(0, 1); c.measure(2, 0); break;
  case 3: c.measure(0, 0); c.measure(1, 1); c.measure(2, 2); break;
  case 4: c.measure(0, 2); c.measure(1, 0); c.measure(2, 1); break;
  case 5: c.measure(1, 1); break;
  case 6: c.measure(1, 2); break;
  default: c.measure(0, 2); break;
  }
  c.initializeIOMapping();
  SV in(8); in[0] = {0.6, 0}; in[6] = {0, 0.8};
  shootAndCompare(c, in, 1);
  sym_cover("mapped");
}
