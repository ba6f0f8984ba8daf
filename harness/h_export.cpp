// OpenQASM export: the exported text, read back, is the same circuit.
#include "sem.h"
#include "qasm3/Importer.hpp"
#include <iostream>
#include <sstream>
using namespace qc;
static std::unique_ptr<QuantumComputation> back(const QuantumComputation &c, bool v3) {
  std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
  std::string s;
  try { s = c.toQASM(v3); } catch (const std::exception &e) { sym_assert(false, "a circuit cannot be exported"); }
  if (sym_is_replay()) printf("  exported:\n%s\n", s.c_str());
  try { return std::make_unique<QuantumComputation>(qasm3::Importer::imports(s)); } catch (const std::exception &e) { if (sym_is_replay()) printf("  rejected: %s\n", e.what()); return nullptr; }
}
static void sameRegs(const QuantumComputation &a, const QuantumComputation &b) {
  sym_assert(a.getNqubits() == b.getNqubits() && a.getNcbits() == b.getNcbits(), "the exported circuit has another size");
  for (const auto &[n, r] : a.getClassicalRegisters()) { const auto it = b.getClassicalRegisters().find(n); sym_assert(it != b.getClassicalRegisters().end() && it->second.getStartIndex() == r.getStartIndex() && it->second.getSize() == r.getSize(), "the exported circuit has other classical registers"); }
  for (const auto *m : {&a.getQuantumRegisters(), &a.getAncillaRegisters()}) for (const auto &[n, r] : *m) { const auto it = b.getQuantumRegisters().find(n); sym_assert(it != b.getQuantumRegisters().end() && it->second.getStartIndex() == r.getStartIndex() && it->second.getSize() == r.getSize(), "the exported circuit has other quantum registers"); }
}
static void samePhase(const std::vector<SV> &a, const std::vector<SV> &b, const char *msg) { // concrete, up to a global phase
  Cx f{0, 0};
  for (size_t i = 0; i < a.size() && f.re == 0 && f.im == 0; ++i) for (size_t j = 0; j < a[i].size(); ++j) {
    const double n = b[i][j].re * b[i][j].re + b[i][j].im * b[i][j].im;
    if (n > 1e-2) { f = a[i][j] * Cx{b[i][j].re / n, -b[i][j].im / n}; break; }
  }
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) { const Cx e = f * b[i][j]; sym_assert_near(a[i][j].re, e.re, 1e-9, msg); sym_assert_near(a[i][j].im, e.im, 1e-9, msg); }
}
static const double kA[] = {0.3, -1.7, PI, PI_2, -PI_4, 1e-7, 12.345678901234567};
// every gate in every position
HARNESS(rtGate) {
  const bool v3 = pinB("version3");
  GateCfg g;
  const unsigned k = pin("gate", 0, 32);
  g.t = k < 19 ? kOne[k] : k < 32 ? kTwo[k - 19] : GPhase;
  const bool three = pinB("threeQubits");
  const unsigned nq = three ? 4 : 3;
  if (g.t == GPhase) { sym_assume(!three); sym_assume(v3); const unsigned m = pin("ctrl", 0, 8); for (unsigned q = 0, x = m; q < 2; ++q, x /= 3) if (x % 3) g.c.emplace(Control{q, x % 3 == 1 ? Control::Type::Pos : Control::Type::Neg}); }
  else if (!three) pickQubits(g, nq, isTwo(g.t) ? 2 : 1, 1, 2);
  else { // two or three controls on 4 qubits
    const bool two = isTwo(g.t);
    const unsigned t = pinQ("target", 4);
    g.tg.push_back(t);
    if (two) g.tg.push_back((t + pin("target2", 1, 3)) % 4);
    const unsigned sg = pin("signs", 0, 7), drop = two ? 4 : pin("drop", 0, 4);
    unsigned i = 0;
    for (unsigned q = 0; q < 4; ++q) { bool u = q == drop; for (auto x : g.tg) u |= x == q; if (u) continue; g.c.emplace(Control{q, sg >> i & 1 ? Control::Type::Neg : Control::Type::Pos}); ++i; }
    sym_assume(sg < (1U << i));
    sym_assume(drop == 4 || drop != t);
  }
  for (int i = 0; i < numParams(g.t); ++i) { const double a = kA[i == 0 ? pin("ang", 0, 6) : (pin("ang2", 0, 1) + i) % 7]; g.p.push_back(a); }
  if (three) sym_assume(g.p.empty() || g.p[0] == 0.3);
  QuantumComputation c;
  c.addQubitRegister(2, "q"); c.addQubitRegister(nq - 2, "anc");
  c.addClassicalRegister(2, "c");
  if (nq == 4 || (!g.p.empty() && g.p[0] != 0.3) ? false : pinB("compound")) { CompoundOperation co; co.emplace_back<StandardOperation>((Qubit)0, H); co.emplace_back(makeStd(g)); c.emplace_back<CompoundOperation>(co); }
  else c.emplace_back(makeStd(g));
  auto r = back(c, v3);
  sym_assert(r != nullptr, "an exported gate is rejected by the importer");
  sameRegs(c, *r);
  samePhase(unitary(c, nq), unitary(*r, nq), "an exported gate is read back as another gate");
  sym_cover("gate");
}
// classically controlled operations
HARNESS(rtCC) {
  const bool v3 = pinB("version3");
  GateCfg g;
  g.t = std::vector<OpType>{X, S, P, V, RZ, SWAP, Peres, iSWAPdg, U, DCX}[pin("gate", 0, 9)];
  pickQubits(g, 2, isTwo(g.t) ? 2 : 1, 1, 2);
  for (int i = 0; i < numParams(g.t); ++i) g.p.push_back(kA[i]);
  QuantumComputation c;
  c.addQubitRegister(2, "q");
  const bool rev = pinB("regOrder");
  if (rev) { c.addClassicalRegister(1, "d"); c.addClassicalRegister(2, "c"); } else { c.addClassicalRegister(2, "c"); c.addClassicalRegister(1, "d"); }
  std::unique_ptr<Operation> body = makeStd(g);
  const unsigned bk = pin("body", 0, 1);
  if (bk == 1) { auto co = std::make_unique<CompoundOperation>(); co->emplace_back<StandardOperation>((Qubit)1, H); co->emplace_back(std::move(body)); body = std::move(co); }
  static const ComparisonKind ck[] = {Eq, Neq, Lt, Leq, Gt, Geq};
  if (pinB("bit")) {
    c.classicControlled(X, 0, (Bit)pin("b", 0, 2), pin("expected", 0, 1), ck[pin("cmp", 0, 1)]);
    sym_assume(g.t == X && bk == 0);
  } else {
    const auto &reg = c.getClassicalRegisters().at(pinB("reg") ? "d" : "c");
    c.emplace_back<ClassicControlledOperation>(std::move(body), reg, pin("expected", 0, 3), ck[v3 ? pin("cmp", 0, 5) : 0]);
  }
  c.y(0);
  auto r = back(c, v3);
  sym_assert(r != nullptr, "an exported conditional operation is rejected by the importer");
  sameRegs(c, *r);
  for (unsigned x = 0; x < 8; ++x) {
    Ens a{Branch{x, choiState(2)}}, b = a;
    applyCirc(a, c); applyCirc(b, *r);
    assertSameDens(density(a), density(b), "an exported conditional operation is read back as another operation");
  }
  sym_cover("cc");
}
// measurements, resets and barriers of any qubits and bits
HARNESS(rtMeas) {
  const bool v3 = pinB("version3");
  const unsigned split = pin("split", 0, 2);
  QuantumComputation c;
  if (split == 0) { c.addQubitRegister(3, "q"); c.addClassicalRegister(3, "c"); }
  if (split == 1) { c.addQubitRegister(2, "q"); c.addQubitRegister(1, "r"); c.addClassicalRegister(2, "c"); c.addClassicalRegister(1, "d"); }
  if (split == 2) { c.addQubitRegister(1, "q"); c.addQubitRegister(2, "r"); c.addClassicalRegister(2, "c"); c.addClassicalRegister(1, "d"); }
  const unsigned kind = pin("kind", 0, 2), n = pin("n", 1, 3);
  Targets t; std::vector<Bit> b;
  for (unsigned i = 0; i < n; ++i) {
    const auto x = pinQ("q", 3);
    for (auto y : t) sym_assume(y != x);
    t.push_back(x);
    if (kind == 0) b.push_back(pin("bit", 0, 2));
  }
  c.h(0); c.cx(0, 1); c.ry(0.3, 2);
  if (kind == 0) c.measure(t, b);
  if (kind == 1) c.reset(t);
  if (kind == 2) c.barrier(t);
  auto r = back(c, v3);
  sym_assert(r != nullptr, "an exported measurement, reset or barrier is rejected by the importer");
  sameRegs(c, *r);
  Ens x{Branch{0, basis(3, 0)}}, y = x;
  applyCirc(x, c); applyCirc(y, *r);
  assertSameDens(density(x), density(y), "an exported measurement or reset is read back as another operation");
  if (kind == 2) {
    std::set<Qubit> u(t.begin(), t.end()), w;
    for (auto &o : *r) if (o->getType() == Barrier) w.insert(o->getTargets().begin(), o->getTargets().end());
    sym_assert(u == w, "an exported barrier is read back with other qubits");
  }
  sym_cover("meas");
}
// layouts, also with removed qubits
HARNESS(rtLayout) {
  static const unsigned ps[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const bool v3 = pinB("version3");
  const unsigned li = pin("i", 0, 5), lo = pin("o", 0, 5), nout = pin("outputs", 1, 3);
  QuantumComputation c;
  if (pinB("ancilla")) { c.addQubitRegister(2, "q"); c.addAncillaryRegister(1, "a"); } else c.addQubitRegister(3, "q");
  c.initialLayout.clear(); c.outputPermutation.clear();
  for (unsigned p = 0; p < 3; ++p) c.initialLayout[p] = ps[li][p];
  for (unsigned l = 0; l < nout; ++l) c.outputPermutation[ps[lo][l]] = l;
  c.h(0); c.cx(0, 1); c.cx(1, 2);
  auto r = back(c, v3);
  sym_assert(r != nullptr, "an exported circuit is rejected by the importer");
  sameRegs(c, *r);
  sym_assert(r->initialLayout == c.initialLayout, "the exported initial layout is read back differently");
  sym_assert(r->outputPermutation == c.outputPermutation, "the exported output permutation is read back differently");
  sym_cover("layout");
}
// sequences of operations
HARNESS(rtSeq) {
  const bool v3 = pinB("version3");
  QuantumComputation c;
  c.addQubitRegister(1, "q"); c.addQubitRegister(1, "r"); c.addClassicalRegister(2, "c");
  const unsigned n = sym_tier() ? 4 : 3;
  for (unsigned i = 0; i < n; ++i) switch (pin("op", 0, 10)) {
    case 0: c.h(0); break;
    case 1: c.cx(0, 1); break;
    case 2: c.cp(0.4, Control{1, Control::Type::Neg}, 0); break;
    case 3: c.measure(0, 1); break;
    case 4: c.measure({0, 1}, std::vector<Bit>{0, 1}); break;
    case 5: c.reset(1); break;
    case 6: c.barrier(); break;
    case 7: c.classicControlled(X, 1, c.getClassicalRegisters().at("c"), 2); break;
    case 8: c.classicControlled(Y, 0, Control{1, Control::Type::Neg}, c.getClassicalRegisters().at("c"), 1); break;
    case 9: c.peres(0, 1); break;
    default: c.swap(0, 1); break;
  }
  auto r = back(c, v3);
  sym_assert(r != nullptr, "an exported circuit is rejected by the importer");
  sameRegs(c, *r);
  Ens a{Branch{0, choiState(2)}}, b = a;
  applyCirc(a, c); applyCirc(b, *r);
  assertSameDens(density(a), density(b), "an exported circuit is read back as another circuit");
  sym_cover("seq");
}
