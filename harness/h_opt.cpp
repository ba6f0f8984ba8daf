// Circuit optimisation passes: they keep the function of every circuit.
#include "sem.h"
#include "circuit_optimizer/CircuitOptimizer.hpp"
using namespace qc;
using CO = CircuitOptimizer;
using QC = QuantumComputation;
static std::unique_ptr<Operation> g1(OpType t, Qubit q, std::vector<fp> p = {}) { return std::make_unique<StandardOperation>(q, t, p); }
static std::unique_ptr<Operation> gc(OpType t, Control c, Qubit q, std::vector<fp> p = {}) { return std::make_unique<StandardOperation>(Controls{c}, q, t, p); }
static std::unique_ptr<Operation> g2(OpType t, Qubit a, Qubit b, std::vector<fp> p = {}, Controls c = {}) { return std::make_unique<StandardOperation>(c, a, b, t, p); }
template <class... A> static std::unique_ptr<Operation> comp(A &&...a) { auto c = std::make_unique<CompoundOperation>(); (c->emplace_back(std::forward<A>(a)), ...); return c; }
static std::unique_ptr<Operation> cc(std::unique_ptr<Operation> o, Bit b, std::uint64_t v = 1, ComparisonKind k = Eq) { return std::make_unique<ClassicControlledOperation>(std::move(o), b, v, k); }
static std::unique_ptr<Operation> me(Qubit q, Bit b) { return std::make_unique<NonUnitaryOperation>(q, b); }
static std::unique_ptr<Operation> me2(std::vector<Qubit> q, std::vector<Bit> b) { return std::make_unique<NonUnitaryOperation>(q, b); }
static std::unique_ptr<Operation> rs(std::vector<Qubit> q) { return std::make_unique<NonUnitaryOperation>(q, Reset); }
static std::unique_ptr<Operation> bar(std::vector<Qubit> q) { return std::make_unique<StandardOperation>(q, Barrier); }
static const Control::Type NEG = Control::Type::Neg;
static Ens run(const QC &c, const SV &in, std::uint64_t cl = 0) { Ens e{Branch{cl, in}}; applyCirc(e, c); return e; }
static Ens both(const QC &c, const SV &in) { Ens e{Branch{0, in}, Branch{1, in}}; applyCirc(e, c); return e; }
static unsigned leaves(const Operation &o, OpType t) {
  if (o.isCompoundOperation()) { unsigned n = 0; for (auto &x : dynamic_cast<const CompoundOperation &>(o)) n += leaves(*x, t); return n; }
  return o.getType() == t ? 1 : 0;
}
static unsigned leaves(const QC &c, OpType t) { unsigned n = 0; for (auto &o : c) n += leaves(*o, t); return n; }
static double gTh; // a rotation angle
// ------------------------------------------------------- gate cancellation
static std::unique_ptr<Operation> cancelOp(unsigned n, unsigned hi) {
  const unsigned k = pin("op", 0, hi);
  static const Qubit pr[6][2] = {{0, 1}, {1, 0}, {1, 2}, {2, 1}, {0, 2}, {2, 0}};
  (void)n;
  switch (k) {
  case 0: case 1: case 2: case 3: case 4: case 5: return gc(X, Control{pr[k][0]}, pr[k][1]);
  case 6: return g2(SWAP, 0, 1);
  case 7: return g2(SWAP, 2, 1);
  case 8: return gc(X, Control{0, NEG}, 1);
  case 9: return g1(H, 0);
  case 10: return bar({0, 1});
  case 11: return cc(gc(X, Control{0}, 1), 0);
  case 12: return comp(gc(X, Control{0}, 1), g1(H, 2));
  case 13: return g2(SWAP, 0, 1, {}, Controls{Control{2}});
  case 14: return std::make_unique<StandardOperation>(Controls{Control{0}, Control{1}}, (Qubit)2, X);
  case 15: return me(0, 0);
  case 16: return gc(Z, Control{0}, 1);
  default: return g2(iSWAP, 0, 1);
  }
}
static void cancel(unsigned len, unsigned hi) {
  gKeepZero = true; sym_real_mode();
  QC c(3, 1);
  for (unsigned i = 0; i < len; ++i) c.emplace_back(cancelOp(3, hi));
  const SV in = symState(3);
  const auto a = both(c, in);
  QC d = c;
  const bool w = pinB("pass");
  if (w) CO::cancelCNOTs(d); else CO::swapReconstruction(d);
  sym_assert(d.getNindividualOps() <= c.getNindividualOps() || leaves(c, SWAP) > 0, "a cancellation pass adds operations");
  assertSameEns(both(d, in), a, w ? "cancelCNOTs changes the circuit" : "swapReconstruction changes the circuit");
  sym_assert(leaves(d, I) == 0, "identities remain");
  sym_cover(d.getNindividualOps() < c.getNindividualOps() ? "shorter" : "same");
}
HARNESS(optCancelLong) { cancel(sym_tier() ? 5 : 4, sym_tier() ? 6 : 6); }
HARNESS(optCancelWide) { cancel(3, sym_tier() ? 17 : 17); }
// ------------------------------------------------------- single-qubit fusion
static std::unique_ptr<Operation> fuseOp(unsigned lo, unsigned hi) {
  static const OpType ts[] = {H, S, Sdg, X, T, Tdg, SX, SXdg, Y, Z, V, Vdg, I};
  const unsigned k = pin("op", lo, hi);
  switch (k) {
  case 0: return g1(X, 0);
  case 1: return g1(H, 0);
  case 2: return g1(S, 0);
  case 3: return g1(Sdg, 0);
  case 4: return g1(RX, 0, {gTh});
  case 5: return gc(X, Control{0}, 1);
  case 6: return bar({0});
  case 7: return me(0, 0);
  case 8: return g1(ts[pin("t", 4, 12)], 0);
  case 9: return rs({0});
  case 10: return cc(g1(X, 0), 0);
  case 11: return bar({0, 1});
  case 12: return comp(g1(H, 0), g1(S, 0));
  case 13: return comp(gc(X, Control{0}, 1));
  case 14: return comp(me(0, 0));
  case 15: return g1(U, 0, {gTh, 0.3, 0.4});
  case 16: return std::make_unique<StandardOperation>(Controls{}, std::vector<Qubit>{}, GPhase, std::vector<fp>{gTh});
  case 17: return comp(cc(g1(X, 0), 0), g1(X, 0));
  default: return g1(X, 1);
  }
}
static void fuse(unsigned len, unsigned hi) {
  gKeepZero = true; sym_real_mode();
  gTh = hi > 5 ? 0.37 : sym_real("theta", 0.1, 1.5);
  QC c(2, 1);
  for (unsigned i = 0; i < len; ++i) c.emplace_back(fuseOp(0, hi));
  const SV in = hi > 5 ? symState(2) : genericState(2);
  const auto a = both(c, in);
  QC d = c;
  CO::singleQubitGateFusion(d);
  assertSameEns(both(d, in), a, "singleQubitGateFusion changes the circuit");
  sym_assert(d.size() <= c.size(), "fusion adds operations");
  sym_cover(d.size() < c.size() ? "shorter" : "same");
}
HARNESS(optFuseLong) { fuse(sym_tier() ? 6 : 5, 5); }
HARNESS(optFuseWide) { fuse(3, 18); }
// ------------------------------------------------------- local rewriting
static std::unique_ptr<Operation> rewOp(unsigned depth) {
  const unsigned k = pin("op", 0, depth ? 11 : 8);
  switch (k) {
  case 0: return g2(SWAP, pinB("o") ? 1 : 0, 2);
  case 1: return g2(SWAP, 0, 1, {}, Controls{Control{2, pinB("neg") ? NEG : Control::Type::Pos}});
  case 2: return gc(X, Control{(Qubit)pin("c", 0, 1), pinB("neg") ? NEG : Control::Type::Pos}, 2);
  case 3: return std::make_unique<StandardOperation>(Controls{Control{0}, Control{2, NEG}}, (Qubit)1, X);
  case 4: return g1(I, 1);
  case 5: return g1(X, 0);
  case 6: return me(1, 0);
  case 7: return cc(pinB("w") ? gc(X, Control{0}, 1) : g2(SWAP, 0, 1), 0);
  case 8: return g1(H, 2);
  case 9: return comp(rewOp(0));
  case 10: return comp(rewOp(0), g1(T, 1));
  default: return comp(comp(rewOp(0), g1(S, 2)), g1(I, 0));
  }
}
static bool anyTop(const QC &c, OpType t, bool ctrl, unsigned depth) {
  std::function<bool(const Operation &, unsigned)> f = [&](const Operation &o, unsigned d) {
    if (o.isCompoundOperation()) { if (d == 0) return false; for (auto &x : dynamic_cast<const CompoundOperation &>(o)) if (f(*x, d - 1)) return true; return false; }
    return o.getType() == t && o.isControlled() == ctrl;
  };
  for (auto &o : c) if (f(*o, depth)) return true;
  return false;
}
HARNESS(optRewrite) {
  gKeepZero = true; sym_real_mode();
  QC c(3, 1);
  const unsigned len = sym_tier() ? 3 : 2;
  for (unsigned i = 0; i < len; ++i) c.emplace_back(rewOp(i == 0 || sym_tier() ? 1 : 0));
  const SV in = symState(3);
  const auto a = both(c, in);
  QC d = c;
  const char *m = "";
  switch (pin("pass", 0, 6)) {
  case 0: CO::decomposeSWAP(d, false); m = "decomposeSWAP changes the circuit"; sym_assert(!anyTop(d, SWAP, false, 1), "decomposeSWAP leaves a SWAP"); break;
  case 1: CO::decomposeSWAP(d, true); m = "decomposeSWAP changes the circuit"; sym_assert(!anyTop(d, SWAP, false, 1), "decomposeSWAP leaves a SWAP"); break;
  case 2: CO::replaceMCXWithMCZ(d); m = "replaceMCXWithMCZ changes the circuit"; sym_assert(!anyTop(d, X, true, 9), "replaceMCXWithMCZ leaves a controlled X"); break;
  case 3: CO::flattenOperations(d, false); m = "flattenOperations changes the circuit"; for (auto &o : d) sym_assert(!o->isCompoundOperation(), "flattenOperations leaves a compound operation"); break;
  case 4: CO::flattenOperations(d, true); m = "flattenOperations changes the circuit"; sym_assert(d == c, "flattenOperations flattens a group that is no custom gate"); break;
  case 5: CO::removeIdentities(d); m = "removeIdentities changes the circuit"; { bool nested = false; for (auto &o : c) if (o->isCompoundOperation()) for (auto &x : dynamic_cast<const CompoundOperation &>(*o)) nested = nested || x->isCompoundOperation(); sym_assert(nested || !anyTop(d, I, false, 1), "removeIdentities leaves an identity"); } break;
  default: { // custom gates only
    QC e(3, 1);
    auto g = std::make_unique<CompoundOperation>(true);
    for (auto &o : c) g->emplace_back(o->clone());
    e.emplace_back(std::move(g));
    CO::flattenOperations(e, true);
    d = e; m = "flattenOperations changes the circuit";
    sym_assert(d.size() == c.size(), "flattenOperations of a custom gate");
  }
  }
  assertSameEns(both(d, in), a, m);
  sym_cover("rewrite");
}
HARNESS(optRemoveOp) { // removes exactly the operations of the given types and size
  QC c(3, 1);
  const unsigned len = 2;
  for (unsigned i = 0; i < len; ++i) {
    const unsigned k = pin("op", 0, 6);
    switch (k) {
    case 0: c.x(0); break;
    case 1: c.cx(0, 1); break;
    case 2: c.h(2); break;
    case 3: c.swap(0, 2); break;
    case 4: c.emplace_back(comp(g1(X, 1), g1(H, 1))); break;
    case 5: c.emplace_back(comp(g1(H, 1), gc(X, Control{2}, 0), g1(X, 2))); break;
    default: c.measure(0, 0); break;
    }
  }
  std::unordered_set<OpType> ts;
  const unsigned w = pin("types", 1, 7);
  if (w & 1) ts.insert(X);
  if (w & 2) ts.insert(H);
  if (w & 4) ts.insert(Measure);
  const unsigned sz = pin("size", 0, 2);
  QC d = c;
  CO::removeOperation(d, ts, sz);
  std::vector<const Operation *> left, got;
  auto flat = [](const QC &q, std::vector<const Operation *> &o) { for (auto &x : q) if (x->isCompoundOperation()) for (auto &y : dynamic_cast<const CompoundOperation &>(*x)) o.push_back(y.get()); else o.push_back(x.get()); };
  flat(c, left); flat(d, got);
  size_t j = 0;
  for (auto *o : left) {
    if (ts.count(o->getType()) != 0 && (sz == 0 || o->getNqubits() == sz)) continue;
    sym_assert(j < got.size() && *got[j] == *o, "removeOperation removes another operation");
    ++j;
  }
  sym_assert(j == got.size(), "removeOperation leaves an operation");
  for (auto &o : d) if (o->isCompoundOperation()) sym_assert(dynamic_cast<const CompoundOperation &>(*o).size() > 1, "a group of one operation remains");
  sym_cover("removed");
}
// ------------------------------------------------------- measurements
static std::unique_ptr<Operation> diagOp() {
  const unsigned k = pin("op", 0, 15);
  switch (k) {
  case 0: return g1(Z, 0);
  case 1: return g1(T, 1);
  case 2: return gc(Z, Control{0}, 1);
  case 3: return gc(Z, Control{1, NEG}, 0);
  case 4: return gc(P, Control{2}, 0, {0.8});
  case 5: return g1(H, 0);
  case 6: return g1(H, 1);
  case 7: return gc(X, Control{1}, 0);
  case 8: return g2(RZZ, 0, 2, {0.6});
  case 9: return comp(g1(S, 0), gc(Z, Control{0}, 1));
  case 10: return comp(g1(Z, 0), g1(H, 1));
  case 11: return cc(g1(Z, 0), 2, 0);
  case 12: return bar({0, 1});
  case 13: return g1(RZ, 1, {0.7});
  case 14: return std::make_unique<StandardOperation>(Controls{Control{0}, Control{1}}, (Qubit)2, Z);
  default: return comp(g1(H, 0), g1(Z, 0), gc(Z, Control{1}, 2));
  }
}
HARNESS(optDiag) {
  QC c(3, 3);
  const unsigned len = sym_tier() ? 4 : 3;
  for (unsigned i = 0; i < len; ++i) c.emplace_back(diagOp());
  const unsigned m = pin("measured", 1, 8);
  if (m == 8) c.emplace_back(me2({0, 1}, {0, 1})); else for (unsigned q = 0; q < 3; ++q) if (m >> q & 1) c.measure(q, q);
  QC d = c;
  CO::removeDiagonalGatesBeforeMeasure(d);
  const SV in = genericState(3);
  assertSameDens(density(run(d, in)), density(run(c, in)), "removeDiagonalGatesBeforeMeasure changes the outcomes");
  sym_cover(d.getNindividualOps() < c.getNindividualOps() ? "shorter" : "same");
}
static std::unique_ptr<Operation> finOp() {
  switch (pin("op", 0, 13)) {
  case 0: return me(0, 0);
  case 1: return me(1, 1);
  case 2: return me2({0, 1}, {0, 1});
  case 3: return me2({2, 0}, {2, 1});
  case 4: return bar({0, 1, 2});
  case 5: return bar({1});
  case 6: return g1(H, 0);
  case 7: return gc(X, Control{0}, 1);
  case 8: return cc(g1(X, 2), 0);
  case 9: return comp(me(0, 0), me(1, 1));
  case 10: return comp(g1(H, 1), me(1, 1));
  case 11: return rs({0});
  case 12: return g1(X, 2);
  default: return comp(me2({0, 1}, {0, 1}), me(2, 2));
  }
}
HARNESS(optFinal) {
  QC c(3, 3);
  const unsigned len = sym_tier() ? 4 : 3;
  for (unsigned i = 0; i < len; ++i) c.emplace_back(finOp());
  QC d = c;
  CO::removeFinalMeasurements(d);
  // a measurement or barrier is final if nothing that stays follows on its qubits
  std::vector<const Operation *> fl, got;
  auto flat = [](const QC &q, std::vector<const Operation *> &o) { for (auto &x : q) if (x->isCompoundOperation()) for (auto &y : dynamic_cast<const CompoundOperation &>(*x)) o.push_back(y.get()); else o.push_back(x.get()); };
  flat(c, fl); flat(d, got);
  std::vector<bool> blocked(3), keep(fl.size());
  unsigned bits = 0; // bits that later operations read
  for (size_t i = fl.size(); i-- > 0;) {
    bool fin = fl[i]->getType() == Measure || fl[i]->getType() == Barrier;
    for (auto q : fl[i]->getUsedQubits()) fin = fin && !blocked[q];
    keep[i] = !fin;
    if (!fin) for (auto q : fl[i]->getUsedQubits()) blocked[q] = true;
    if (fin && fl[i]->getType() == Measure) for (auto b : dynamic_cast<const NonUnitaryOperation &>(*fl[i]).getClassics()) if (bits >> b & 1) { keep[i] = true; for (auto q : fl[i]->getUsedQubits()) blocked[q] = true; }
    if (fl[i]->isClassicControlledOperation()) bits |= 1U << *dynamic_cast<const ClassicControlledOperation &>(*fl[i]).getControlBit();
  }
  size_t j = 0, kept = 0;
  for (size_t i = 0; i < fl.size(); ++i) {
    const bool same = j < got.size() && *got[j] == *fl[i];
    if (keep[i]) { sym_assert(same, "removeFinalMeasurements removes an operation that is not final"); ++j; ++kept; }
    else if (same && got.size() - j > 0) { // kept although final: must not happen for plain circuits
      bool plain = true; for (auto &o : c) plain = plain && !o->isCompoundOperation();
      size_t rest = 0; for (size_t k = i; k < fl.size(); ++k) rest += keep[k];
      if (got.size() - j > rest) { sym_assert(!plain, "removeFinalMeasurements leaves a final measurement"); ++j; }
    }
  }
  sym_assert(j == got.size(), "removeFinalMeasurements changes the order of operations");
  sym_cover(kept < fl.size() ? "removed" : "same");
}
// ------------------------------------------------------- dynamic circuits
HARNESS(optResets) {
  gKeepZero = true; sym_real_mode();
  QC c(2, 2);
  const unsigned len = sym_tier() ? 4 : 3;
  unsigned nres = 0;
  c.h(0); c.ry(0.9, 1); c.cx(0, 1);
  for (unsigned i = 0; i < len; ++i) {
    switch (pin("op", 0, 13)) {
    case 0: c.reset(0); ++nres; break;
    case 1: c.reset({1, 0}); nres += 2; break;
    case 2: c.h(0); break;
    case 3: c.cx(0, 1); break;
    case 4: c.cx(Control{1, NEG}, 0); break;
    case 5: c.measure(0, 0); break;
    case 6: c.measure({1, 0}, {0, 1}); break;
    case 7: c.emplace_back(cc(gc(X, Control{0}, 1), 0)); break;
    case 8: c.emplace_back(comp(rs({1}), g1(RX, 1, {0.4}))); ++nres; break;
    case 9: c.emplace_back(comp(g1(RX, 0, {0.5}), gc(X, Control{1}, 0))); break;
    case 10: c.barrier({0, 1}); break;
    case 11: c.emplace_back(cc(comp(g1(X, 0), g1(RX, 1, {0.5})), 0)); break;
    case 12: c.emplace_back(comp(cc(g1(X, 0), 0), me(0, 0))); break;
    default: c.swap(0, 1); break;
    }
  }
  c.measure(0, 0);
  sym_assume(nres <= 4);
  QC d = c;
  CO::eliminateResets(d);
  sym_assert(leaves(d, Reset) == 0, "eliminateResets leaves a reset");
  sym_assert(d.getNqubits() == 2 + nres, "eliminateResets adds one qubit per reset");
  gKeepZero = false;
  auto a = probs(run(c, basis(2, 0))), b = probs(run(d, basis(2 + nres, 0)));
  assertSameProbs(a, b, "eliminateResets changes the outcomes");
  sym_cover(nres ? "reset" : "none");
}
HARNESS(optDefer) { // measured qubits are not changed afterwards and their last values are not overwritten
  QC c(3, 2);
  const unsigned len = sym_tier() ? 5 : 4;
  unsigned touched = 0; int owner[2] = {-1, -1};
  auto meas = [&](unsigned q, unsigned b) { c.measure(q, b); owner[b] = (int)q; touched |= 1U << q; };
  auto act = [&](unsigned q) { sym_assume(!(touched >> q & 1)); };
  for (unsigned i = 0; i < len; ++i) {
    switch (pin("op", 0, i ? 16 : 2)) { // what precedes the first measurement stays where it is
    case 0: meas(0, 0); break;
    case 1: meas(1, 1); break;
    case 2: meas(pin("mq", 0, 1), 0); break;
    case 3: act(1); c.h(1); break;
    case 4: c.rx(0.7, 2); break;
    case 5: c.cx(0, 2); break;
    case 6: act(1); c.cx(2, 1); break;
    case 7: c.emplace_back(cc(g1(X, 2), 0, pin("v", 0, 1))); break;
    case 8: act(1); c.emplace_back(cc(g1(H, 1), 0, pin("v", 0, 1), Neq)); break;
    case 9: c.emplace_back(cc(gc(X, Control{0, NEG}, 2), 0)); break;
    case 10: act(0); c.h(0); break;
    case 11: act(1); c.emplace_back<ClassicControlledOperation>(g2(RXX, 1, 2, {0.4}), ClassicalRegister(pin("reg", 0, 1), 1, "c"), 1, sym_tier() ? (ComparisonKind)pin("k", 0, 5) : Geq); break;
    case 12: c.cz(0, 1); break;
    case 13: c.emplace_back(comp(g1(H, 2), gc(X, Control{1}, 2))); break;
    case 14: c.emplace_back(comp(cc(g1(X, 2), 0), g1(T, 2))); break;
    case 15: c.emplace_back(comp(g1(H, 2), me(1, 1))); owner[1] = 1; touched |= 2U; break;
    default: c.emplace_back(comp(comp(me(0, 0), cc(g1(X, 2), 0)), gc(X, Control{0}, 2))); owner[0] = 0; touched |= 1U; break;
    }
  }
  for (unsigned q = 0; q < 2; ++q) sym_assume(!(touched >> q & 1) || owner[0] == (int)q || owner[1] == (int)q);
  QC d = c;
  bool thrown = false;
  try { CO::deferMeasurements(d); } catch (const std::runtime_error &) { thrown = true; }
  sym_assert(!thrown, "deferMeasurements rejects the circuit");
  bool seen = false;
  for (auto &o : d) { if (o->getType() == Measure) seen = true; else if (seen) sym_assert(o->getType() == Measure, "an operation follows a deferred measurement"); }
  assertSameDens(density(run(d, genericState(3))), density(run(c, genericState(3))), "deferMeasurements changes the outcomes");
  sym_cover(owner[0] >= 0 || owner[1] >= 0 ? "deferred" : "none");
}
// ------------------------------------------------------- permutations
static std::unique_ptr<Operation> permOp(unsigned depth) {
  switch (pin("op", 0, depth ? 9 : 7)) {
  case 0: return g2(SWAP, 0, 1);
  case 1: return g2(SWAP, 2, 1);
  case 2: return gc(RX, Control{0}, 1, {0.7});
  case 3: return g1(H, 2);
  case 4: return me(1, 0);
  case 5: return cc(gc(X, Control{1, NEG}, 2), 0);
  case 6: return g2(SWAP, 0, 2, {}, Controls{Control{1}});
  case 7: return bar({0, 2});
  case 8: return comp(permOp(0), g2(SWAP, 0, 2));
  default: return comp(g1(T, 0), permOp(0));
  }
}
static const unsigned kPerm3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
// logical state -> physical wires by layout, run, read the outputs; other wires are traced out
static Dens logical(const QC &c, const SV &in) {
  SV ph(8);
  for (unsigned i = 0; i < 8; ++i) { unsigned j = 0; for (const auto &[p, l] : c.initialLayout) j |= (i >> l & 1U) << p; ph[j] = in[i]; }
  Ens e = run(c, ph);
  unsigned outs = 0;
  for (const auto &[p, l] : c.outputPermutation) outs |= 1U << p;
  for (unsigned q = 0; q < 3; ++q) if (!(outs >> q & 1)) e = traceOut(e, q);
  for (auto &b : e) { SV v(8); for (unsigned j = 0; j < 8; ++j) { if (j & ~outs) continue; unsigned i = 0; for (const auto &[p, l] : c.outputPermutation) i |= (j >> p & 1U) << l; v[i] = b.v[j]; } b.v = v; }
  return density(e);
}
HARNESS(optElide) {
  QC c(3, 1);
  const unsigned li = pin("layout", 0, 5), lo = pin("output", 0, 5), outs = pin("outs", 0, 2);
  c.initialLayout.clear(); c.outputPermutation.clear();
  for (unsigned p = 0; p < 3; ++p) c.initialLayout[p] = kPerm3[li][p];
  for (unsigned p = 0; p < 3; ++p) if (p < 1 + outs) c.outputPermutation[p] = kPerm3[lo][p];
  const unsigned len = sym_tier() ? 3 : 2;
  for (unsigned i = 0; i < len; ++i) c.emplace_back(permOp(i == 0 || sym_tier() ? 1 : 0));
  QC d = c;
  CO::elidePermutations(d);
  sym_assert(!anyTop(d, SWAP, false, 9), "elidePermutations leaves a SWAP");
  for (const auto &[p, l] : d.initialLayout) sym_assert(p == l, "elidePermutations leaves a layout");
  sym_assert(d.initialLayout.size() == 3 && d.outputPermutation.size() == c.outputPermutation.size(), "elidePermutations loses qubits");
  assertSameDens(logical(d, genericState(3)), logical(c, genericState(3)), "elidePermutations changes the circuit");
  sym_cover("elide");
}
HARNESS(optBackprop) { // the layout found makes the SWAPs a mere relabelling
  QC c(3, 1);
  const unsigned lo = pin("output", 0, 5), outs = pin("outs", 0, 7);
  c.outputPermutation.clear();
  for (unsigned p = 0; p < 3; ++p) if (outs >> p & 1) c.outputPermutation[p] = kPerm3[lo][p];
  const unsigned len = sym_tier() ? 4 : 3;
  for (unsigned i = 0; i < len; ++i) {
    switch (pin("op", 0, 6)) {
    case 0: c.swap(0, 1); break;
    case 1: c.swap(2, 1); break;
    case 2: c.swap(0, 2); break;
    case 3: c.cx(0, 1); break;
    case 4: c.emplace_back(comp(g2(SWAP, 0, 1), g2(SWAP, 1, 2))); break;
    case 5: c.cswap(0, 1, 2); break;
    default: c.h(0); break;
    }
  }
  const QC before = c;
  CO::backpropagateOutputPermutation(c);
  sym_assert(c.initialLayout.size() == 3, "the layout is incomplete");
  unsigned seen = 0;
  for (const auto &[p, l] : c.initialLayout) { sym_assert(p < 3 && l < 3 && !(seen >> l & 1), "the layout is not one-to-one"); seen |= 1U << l; }
  std::map<Qubit, Qubit> cur;
  for (const auto &[p, l] : c.initialLayout) cur[p] = l;
  std::function<void(const Operation &)> go = [&](const Operation &o) {
    if (o.isCompoundOperation()) { for (auto &x : dynamic_cast<const CompoundOperation &>(o)) go(*x); return; }
    if (o.getType() == SWAP && !o.isControlled()) std::swap(cur[o.getTargets()[0]], cur[o.getTargets()[1]]);
  };
  for (auto &o : c) go(*o);
  for (const auto &[p, l] : before.outputPermutation) sym_assert(cur[p] == l, "following the SWAPs from the layout does not give the output permutation");
  sym_assert(c.outputPermutation == before.outputPermutation && c == [&] { QC x = before; x.initialLayout = c.initialLayout; return x; }(), "backpropagation changes more than the layout");
  sym_cover("backprop");
}
// ------------------------------------------------------- blocks
HARNESS(optBlocks) {
  gKeepZero = true; sym_real_mode();
  QC c(4, 1);
  const unsigned len = sym_tier() ? 4 : 3;
  bool measured = false;
  auto act0 = [&] { sym_assume(!measured); }; // deferring measurements: see O02
  for (unsigned i = 0; i < len; ++i) {
    switch (pin("op", 0, 11)) {
    case 0: act0(); c.h(0); break;
    case 1: c.cx(0, 1); break;
    case 2: c.cx(2, 1); break;
    case 3: c.rx(0.4, 2); break;
    case 4: c.mcx({0, 1}, 2); break;
    case 5: c.measure(0, 0); measured = true; break;
    case 6: c.barrier({0, 1}); break;
    case 7: c.emplace_back(cc(g1(X, 1), 0)); break;
    case 8: act0(); c.emplace_back(comp(g1(S, 0), gc(H, Control{3}, 0))); break;
    case 9: c.cx(3, 2); break;
    case 10: c.reset(2); break;
    default: c.swap(1, 3); break;
    }
  }
  const unsigned k = pin("size", 1, 4);
  QC d = c;
  try { CO::collectBlocks(d, k); } catch (const std::runtime_error &) { sym_cover("rejected"); return; }
  for (auto &o : d) if (o->isCompoundOperation()) { bool own = false; for (auto &x : c) own = own || *x == *o; if (!own) sym_assert(o->getUsedQubits().size() <= k, "a block is larger than allowed"); }
  bool dyn = false;
  for (auto &o : c) dyn = dyn || !o->isUnitary();
  if (!dyn) { const SV in = symState(4); assertSameEns(run(d, in), run(c, in), "collectBlocks changes the circuit"); sym_cover("unitary"); }
  else { gKeepZero = false; assertSameProbs(probs(run(d, genericState(4))), probs(run(c, genericState(4))), "collectBlocks changes the outcomes"); sym_cover("dynamic"); }
}
