// Layer: every schedule of executable operations is the circuit.
#include "sem.h"
#include "datastructures/Layer.hpp"
#include <algorithm>
#include <memory>
#include <stdexcept>
using qc::Layer; using qc::QuantumComputation; using qc::StandardOperation; using qc::Targets;
using Vtx = std::shared_ptr<Layer::DAGVertex>;
static size_t indexOf(const QuantumComputation &c, const qc::Operation *op) {
  for (size_t i = 0; i < c.size(); ++i) if (c.at(i).get() == op) return i;
  sym_assert(false, "a vertex holds an operation that is not in the circuit");
  return 0;
}
static std::vector<Vtx> executables(const QuantumComputation &c, const Layer &l) { // in the order of the circuit
  std::vector<Vtx> v(l.getExecutableSet().begin(), l.getExecutableSet().end());
  std::sort(v.begin(), v.end(), [&](const Vtx &a, const Vtx &b) { return indexOf(c, a->getOperation()) < indexOf(c, b->getOperation()); });
  return v;
}
// a schedule chosen by the solver; returns the order of the operations
static std::vector<size_t> schedule(const QuantumComputation &c, const Layer &l) {
  std::vector<size_t> order;
  std::vector<Vtx> seen;
  while (true) {
    const auto ex = executables(c, l);
    for (const auto &v : ex) {
      sym_assert(v->isExecutable() && !v->isExecuted(), "an operation in the executable set is not executable");
      bool known = false;
      for (const auto &s : seen) known |= s == v;
      if (!known) seen.push_back(v);
    }
    for (const auto &s : seen) {
      if (std::find(ex.begin(), ex.end(), s) != ex.end()) continue;
      sym_assert(!s->isExecutable(), "an executable operation is not in the executable set");
      bool threw = false;
      try { s->execute(); } catch (const std::logic_error &) { threw = true; }
      sym_assert(threw, "an operation that is not executable was executed");
    }
    if (ex.empty()) break;
    const auto v = ex[ex.size() == 1 ? 0 : pin("next", 0, ex.size() - 1)];
    order.push_back(indexOf(c, v->getOperation()));
    v->execute();
    sym_assert(v->isExecuted(), "an executed operation is not marked as executed");
  }
  sym_assert(order.size() == c.size(), "not all operations can be executed");
  auto sorted = order;
  std::sort(sorted.begin(), sorted.end());
  for (size_t i = 0; i < sorted.size(); ++i) sym_assert(sorted[i] == i, "an operation is executed twice");
  sym_cover(std::is_sorted(order.begin(), order.end()) ? "in order" : "reordered");
  return order;
}
static void checkUnitary(const QuantumComputation &c, unsigned n, const std::vector<size_t> &order) {
  if (std::is_sorted(order.begin(), order.end())) return;
  for (unsigned x = 0; x < (1U << n); ++x) {
    Ens a{Branch{0, basis(n, x)}}, b{Branch{0, basis(n, x)}};
    for (size_t i = 0; i < c.size(); ++i) { applyOp(a, *c.at(i)); applyOp(b, *c.at(order[i])); }
    assertSameSV(a.at(0).v, b.at(0).v, "a schedule of executable operations is not the circuit");
  }
}
static double gA, gB;
static void multi(QuantumComputation &c, const Targets &t, qc::OpType ty, double a) { c.emplace_back<StandardOperation>(t, ty, std::vector<qc::fp>{a}); }
static void emit(QuantumComputation &c, unsigned k) {
  switch (k) {
  case 0: multi(c, {0, 1, 2}, qc::RY, gA); break;
  case 1: multi(c, {0, 1, 2}, qc::RY, -gA); break;
  case 2: c.rz(gB, 0); break;
  case 3: c.cz(0, 1); break;
  case 4: c.cz(1, 2); break;
  case 5: c.h(2); break;
  case 6: c.cx(2, 0); break;
  case 7: multi(c, {0, 1, 2}, qc::RZ, gA); break;
  case 8: multi(c, {0, 1, 2}, qc::RZ, -gA); break;
  case 9: multi(c, {0, 1}, qc::RY, gA); break;
  case 10: multi(c, {0, 1}, qc::RY, -gA); break;
  case 11: multi(c, {0, 2}, qc::RX, gB); break;
  case 12: multi(c, {0, 2}, qc::RX, -gB); break;
  case 13: c.h(1); break;
  case 14: c.cx(0, 1); break;
  case 15: c.cx(1, 0); break;
  case 16: c.h(0); break;
  case 17: c.t(1); break;
  case 18: c.swap(0, 1); break;
  case 19: c.rxx(gA, 0, 1); break;
  case 20: c.rxx(-gA, 0, 1); break;
  case 21: c.crx(gB, 1, 0); break;
  case 22: c.i(0); break;
  case 23: c.rx(gA, 0); break;
  case 24: c.mcx({1, 2}, 0); break;
  case 25: c.x(1); break;
  case 26: c.mcx({qc::Control{2, qc::Control::Type::Neg}}, 0); break;
  case 27: c.rzz(gA, 1, 0); break;
  case 28: c.u(gA, gB, 0.25, 0); break;
  case 29: c.u2(gA, gB, 0); break;
  case 30: c.gphase(gA); break;
  }
}

static void circuit(const std::vector<unsigned> &kinds, unsigned len, bool symb, const std::vector<unsigned> &first = {}) {
  if (symb) { sym_real_mode(); gA = sym_real("a", 0.1, 1.5); gB = sym_real("b", 0.1, 1.5); }
  else { gA = 0.7; gB = 1.1; }
  QuantumComputation c(3);
  for (auto k : first) emit(c, k);
  for (unsigned k = first.size(); k < len; ++k) emit(c, kinds[pin("gate", 0, kinds.size() - 1)]);
  const Layer l(c);
  checkUnitary(c, 3, schedule(c, l));
}
HARNESS(layGlobal) { circuit({0, 1, 2, 3, 4, 5}, sym_tier() ? 5 : 4, false); }
HARNESS(layDiag) { circuit({7, 8, 6, 5, 3, 2}, sym_tier() ? 5 : 4, false); }
HARNESS(layPairs) { circuit({9, 10, 11, 12, 13, 5, 6}, sym_tier() ? 6 : 5, false, {9}); }
HARNESS(layTwoPairs) { circuit({9, 10, 11, 12, 13, 5, 6}, sym_tier() ? 7 : 6, false, {9, 13, 10}); }
HARNESS(layTwo) { circuit({3, 14, 15, 16, 13, 17, 18, 19, 20}, sym_tier() ? 5 : 4, false); }
HARNESS(laySymbolicAngles) { circuit({0, 1, 2, 5, 23, 21, 27}, 3, true); }
static std::unique_ptr<qc::Operation> compound(unsigned k) {
  auto c = std::make_unique<qc::CompoundOperation>();
  auto add = [&](qc::Targets t, qc::OpType ty, std::vector<qc::fp> p = {}, qc::Controls cs = {}) { c->emplace_back<StandardOperation>(cs, t, ty, p); };
  switch (k) {
  case 0: add({0}, qc::RY, {0.7}); add({1}, qc::RY, {0.7}); break;
  case 1: add({1}, qc::RY, {-0.7}); add({0}, qc::RY, {-0.7}); break;
  case 2: add({0}, qc::H); add({1}, qc::X, {}, {qc::Control{0}}); break;
  case 3: add({1}, qc::X, {}, {qc::Control{0}}); add({0}, qc::H); break;
  case 4: add({0}, qc::T); add({1}, qc::T); break;
  case 5: add({0}, qc::Z, {}, {qc::Control{1}}); add({2}, qc::X); break;
  }
  return c;
}
HARNESS(layCompound) {
  gA = 0.7; gB = 1.1;
  QuantumComputation c(3);
  static const unsigned kMore[] = {3, 14, 13, 16, 17, 6, 9, 10};
  for (unsigned k = 0; k < (sym_tier() ? 5u : 4u); ++k) {
    const unsigned g = pin("gate", 0, sym_tier() ? 13 : 10);
    if (g < 6) c.emplace_back(compound(g)); else emit(c, kMore[g - 6]);
  }
  const Layer l(c);
  checkUnitary(c, 3, schedule(c, l));
}
// operations of any type: executable at the same time only if they commute
static const qc::OpType kTypes[] = {qc::I, qc::X, qc::H, qc::S, qc::V, qc::U, qc::U2, qc::P, qc::RX, qc::RZ, qc::SWAP, qc::iSWAP, qc::Peres, qc::DCX, qc::ECR, qc::RXX, qc::RZZ, qc::RZX, qc::XXminusYY, qc::GPhase, qc::Y, qc::Z, qc::Sdg, qc::T, qc::SX, qc::RY, qc::RYY, qc::XXplusYY};
static void anyOp(QuantumComputation &c, bool fixed) {
  GateCfg g;
  g.t = kTypes[pin("type", 0, sym_tier() ? 27 : 19)];
  const bool two = isTwo(g.t);
  if (fixed) { g.tg = {0}; if (two) g.tg.push_back(1); if (pinB("controlled")) g.c.emplace(qc::Control{2}); }
  else pickQubits(g, 3, two ? 2 : 1, 1, sym_tier() ? 2 : 1);
  for (int i = 0; i < numParams(g.t); ++i) g.p.push_back(i == 0 && pinB("other") ? 0.4 : 0.7 + 0.2 * i);
  if (g.t == qc::GPhase) { if (g.c.empty()) g.c.emplace(qc::Control{0}); g.tg.clear(); }
  c.emplace_back(makeStd(g));
}
HARNESS(layAnyPair) {
  QuantumComputation c(3);
  anyOp(c, true); anyOp(c, false);
  const Layer l(c);
  checkUnitary(c, 3, schedule(c, l));
  // and the relation itself
  for (int d = 0; d < 2; ++d) {
    const auto &a = *c.at(d), &b = *c.at(1 - d);
    bool all = true;
    for (qc::Qubit q = 0; q < 3; ++q) {
      const bool com = a.commutesAtQubit(b, q);
      sym_assert(com || (a.actsOn(q) && b.actsOn(q)), "operations do not commute at a qubit only one acts on");
      all = all && com;
    }
    if (!all) continue;
    sym_cover("commute");
    checkUnitary(c, 3, {1, 0});
  }
}
HARNESS(laySymbolic) { // symbolic operations commute for all values only
  QuantumComputation c(1);
  const sym::Variable x("x"), y("y");
  const qc::Symbolic sx{sym::Term<qc::fp>{x}}, sy{sym::Term<qc::fp>{y}};
  const unsigned k = pin("kind", 0, 4);
  auto par = [&]() -> qc::SymbolOrNumber { const unsigned p = pin("param", 0, 3); if (p == 0) return sx; if (p == 1) return sy; return p == 2 ? 0. : 1.; };
  for (unsigned i = 0; i < 2; ++i) {
    if (k == 0) c.rx(par(), 0);
    if (k == 1) c.u2(par(), par(), 0);
    if (k == 2) c.u(par(), par(), 0.3, 0);
    if (k == 3) { if (i) c.rz(par(), 0); else c.ry(par(), 0); }
    if (k == 4) { if (i) c.p(par(), 0); else c.rz(par(), 0); }
  }
  const Layer l(c);
  const auto order = schedule(c, l);
  if (order[0] == 0) return;
  QuantumComputation i(c);
  i.instantiateInplace({{x, 0.7}, {y, 1.3}});
  for (unsigned b = 0; b < 2; ++b) {
    SV u = basis(1, b), v = basis(1, b);
    applyOpSV(u, *i.at(0)); applyOpSV(u, *i.at(1)); applyOpSV(v, *i.at(1)); applyOpSV(v, *i.at(0));
    assertSameSV(u, v, "symbolic operations that do not commute are executable at the same time");
  }
}
HARNESS(layClassic) { // measurements, conditions, resets and barriers
  QuantumComputation c(2, 2);
  for (unsigned k = 0; k < (sym_tier() ? 5u : 4u); ++k) {
    const unsigned g = pin("gate", 0, sym_tier() ? 11 : 9);
    switch (g) {
    case 0: c.h(0); break;
    case 1: c.measure(0, 0); break;
    case 2: c.measure(1, 0); break;
    case 3: c.classicControlled(qc::X, 1, 0, 1); break;
    case 4: c.classicControlled(qc::X, 0, c.getClassicalRegisters().begin()->second, 1); break;
    case 5: c.reset(0); break;
    case 6: c.x(1); break;
    case 7: c.cx(0, 1); break;
    case 8: c.barrier({0, 1}); break;
    case 9: c.t(0); break;
    case 10: { auto o = std::make_unique<qc::CompoundOperation>(); o->emplace_back<qc::NonUnitaryOperation>(0, 1); o->emplace_back<StandardOperation>(1, qc::H); c.emplace_back(std::move(o)); break; }
    case 11: c.measure(1, 1); break;
    }
  }
  const Layer l(c);
  const auto order = schedule(c, l);
  if (std::is_sorted(order.begin(), order.end())) return;
  for (size_t i = 0; i < order.size(); ++i) for (size_t j = i + 1; j < order.size(); ++j) {
    if (order[i] < order[j]) continue;
    const auto &a = *c.at(order[i]), &b = *c.at(order[j]);
    sym_assert(a.getType() != qc::Barrier && b.getType() != qc::Barrier, "an operation is moved across a barrier");
  }
  sym_cover("dynamic");
  Ens a{Branch{0, genericState(2)}}, b = a;
  for (size_t i = 0; i < c.size(); ++i) { applyOp(a, *c.at(i)); applyOp(b, *c.at(order[i])); }
  assertSameDens(density(a), density(b), "a schedule changes the outcomes or states of a dynamic circuit");
}
// queries, layers without commutation, moved and copied layers
HARNESS(layQueries) {
  gA = 0.7; gB = 1.1;
  QuantumComputation c(3);
  static const unsigned kKinds[] = {3, 4, 14, 17, 16, 19, 21, 24};
  for (unsigned k = 0; k < 3; ++k) emit(c, kKinds[pin("gate", 0, 7)]);
  const bool commutable = pinB("commutable");
  Layer first(c, commutable);
  const unsigned how = pin("moved", 0, 3);
  Layer l = how == 0 ? std::move(first) : how == 1 ? Layer(first) : Layer();
  if (how == 2) { l = std::move(first); first = Layer(); }
  if (how == 3) l = first;
  // execute a prefix
  std::vector<bool> done(c.size(), false);
  for (unsigned n = pin("executed", 0, 2); n > 0; --n) {
    const auto ex = executables(c, l);
    const auto v = ex.at(pin("next", 0, ex.size() - 1));
    done[indexOf(c, v->getOperation())] = true;
    v->execute();
  }
  const auto ex = executables(c, l);
  if (!commutable) { // exactly the operations all of whose predecessors on their qubits are done
    for (size_t i = 0; i < c.size(); ++i) {
      bool ready = !done[i];
      bool inverse = false;
      for (size_t j = 0; j < i; ++j) for (auto q : c.at(j)->getUsedQubits()) if (c.at(i)->actsOn(q)) { if (!done[j]) ready = false; if (c.at(j)->isSingleQubitGate() && *c.at(j) == *c.at(i)) inverse = true; }
      for (size_t j = 0; j < c.size(); ++j) for (size_t k = 0; k < j; ++k) if (c.at(j)->isSingleQubitGate() && *c.at(j) == *c.at(k)) inverse = true;
      if (inverse) continue;
      bool in = false;
      for (const auto &v : ex) in |= indexOf(c, v->getOperation()) == i;
      sym_assert(in == ready, "without commutation, other operations than the next ones are executable");
      sym_cover("sequential");
    }
  }
  for (size_t i = 0; i < ex.size(); ++i) for (size_t j = i + 1; j < ex.size(); ++j) sym_assert(ex[i]->getOperation()->isSingleQubitGate() || !(*ex[i]->getOperation() == *ex[j]->getOperation()), "the same operation on several qubits is executable twice");
  struct Q { qc::OpType t; size_t nc; };
  for (const auto &q : {Q{qc::Z, 1}, Q{qc::X, 1}, Q{qc::T, 0}, Q{qc::H, 0}, Q{qc::X, 2}, Q{qc::RX, 1}, Q{qc::RXX, 0}}) {
  std::vector<size_t> want, got;
  for (const auto &v : ex) if (v->getOperation()->getType() == q.t && v->getOperation()->getNcontrols() == q.nc) want.push_back(indexOf(c, v->getOperation()));
  for (const auto &v : l.getExecutablesOfType(q.t, q.nc)) { sym_assert(v->isExecutable(), "an operation reported as executable is not"); got.push_back(indexOf(c, v->getOperation())); }
  std::sort(got.begin(), got.end());
  sym_assert(want == got, "the executable operations of a type are wrong");
  bool threw = false;
  try {
    const auto g = l.constructInteractionGraph(q.t, q.nc);
    sym_cover("graph");
    sym_assert(g.getNEdges() == want.size(), "the interaction graph has another number of edges than there are executable operations");
    std::set<qc::Qubit> verts;
    for (auto w : want) {
      const auto u = c.at(w)->getUsedQubits();
      verts.insert(u.begin(), u.end());
      sym_assert(indexOf(c, g.getEdge(*u.begin(), *u.rbegin())->getOperation()) == w, "an edge of the interaction graph holds another operation");
    }
    const auto gv = g.getVertices();
    sym_assert(std::set<qc::Qubit>(gv.begin(), gv.end()) == verts, "the vertices of the interaction graph are wrong");
  } catch (const std::invalid_argument &) { threw = true; }
  sym_assert(threw == (q.nc != 1), "interaction graphs are constructed for other operations than two-qubit gates");
  }
}
