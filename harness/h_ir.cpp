// Operations and circuits: equality, inverse relation, commutation, cloning,
// inversion, compound operations.
#include "sem.h"
using namespace qc;
static const OpType kAll[] = {I, X, Y, Z, H, S, Sdg, T, Tdg, V, Vdg, SX, SXdg, P, RX, RY, RZ, U2, U, SWAP, iSWAP, iSWAPdg, DCX, ECR, Peres, Peresdg, RXX, RYY, RZZ, RZX, XXminusYY, XXplusYY};
static GateCfg anyGate(unsigned nq, unsigned maxc, int ctl) {
  GateCfg g;
  g.t = pick("type", kAll);
  pickQubits(g, nq, isTwo(g.t) ? 2 : 1, maxc, ctl);
  return g;
}
static bool sameUConc(const std::vector<SV> &a, const std::vector<SV> &b) {
  for (size_t i = 0; i < a.size(); ++i) if (!nearSV(a[i], b[i])) return false;
  return true;
}
static bool phaseSame(const std::vector<SV> &a, const std::vector<SV> &b) { return sameUConc(a, b); }
// equality of standard operations is sound, symmetric and consistent with hashing
HARNESS(eqOps) {
  GateCfg a, b;
  a.t = pick("type", kAll);
  b.t = a.t;
  const bool other = pinB("otherType");
  if (other) b.t = pick("type2", kAll);
  const unsigned nq = 3;
  if (other) { // different types: the first test of equality decides; small configurations
    pickQubits(a, 2, isTwo(a.t) ? 2 : 1, 0, 0); pickQubits(b, 2, isTwo(b.t) ? 2 : 1, 0, 0);
  } else { pickQubits(a, nq, isTwo(a.t) ? 2 : 1, 2, 2); pickQubits(b, nq, isTwo(b.t) ? 2 : 1, 2, 2); }
  for (int i = 0; i < numParams(a.t); ++i) a.p.push_back(0.3 + i);
  for (int i = 0; i < numParams(b.t); ++i) b.p.push_back(0.3 + i);
  if (numParams(b.t) > 0 && pinB("otherParam")) b.p.back() = 0.9;
  auto x = makeStd(a), y = makeStd(b);
  const bool eq = *x == *y;
  sym_assert((*y == *x) == eq, "equality of operations is not symmetric");
  sym_assert((*x != *y) == !eq, "operator!= contradicts operator==");
  if (a.t == b.t && a.c == b.c && a.tg == b.tg && a.p == b.p) sym_assert(eq, "equal operations compare unequal");
  if (eq) {
    sym_cover("equal");
    sym_assert(std::hash<Operation>{}(*x) == std::hash<Operation>{}(*y), "equal operations have different hashes");
    assertSameU(unitary(*x, nq), unitary(*y, nq), "operations that compare equal act differently");
  }
  if (x->isInverseOf(*y)) {
    sym_cover("inverse");
    for (unsigned s = 0; s < 8; ++s) {
      SV v = basis(nq, s);
      applyOpSV(v, *x); applyOpSV(v, *y);
      assertSameSV(v, basis(nq, s), "isInverseOf holds but the product is not the identity");
    }
  }
}
// equality of every operation kind against its clone, copies preserve meaning
static std::unique_ptr<Operation> anyOp(unsigned nq, unsigned nc, int depth, bool small = false) {
  const unsigned k = pin("kind", 0, depth > 0 ? 6 : (depth < 0 ? 1 : 4));
  GateCfg g;
  switch (k) {
  case 0: { const OpType ts[] = {X, RZ, U, Peres, SWAP, RZX}; g.t = ts[pin("type", 0, depth < 0 ? 0 : (small ? 3 : 5))]; pickQubits(g, nq, isTwo(g.t) ? 2 : 1, 1, depth < 0 ? 1 : 2); concAngles(g, 0); return makeStd(g); }
  case 1: { unsigned q = pinQ("mq", nq); unsigned b = pin("mb", 0, nc - 1); if (pinB("multi")) return std::make_unique<NonUnitaryOperation>(std::vector<Qubit>{q, (q + 1) % nq}, std::vector<Bit>{b, (b + 1) % nc}); return std::make_unique<NonUnitaryOperation>((Qubit)q, (Bit)b); }
  case 2: { unsigned q = pinQ("rq", nq); return std::make_unique<NonUnitaryOperation>(std::vector<Qubit>{q}, Reset); }
  case 3: return std::make_unique<StandardOperation>(std::vector<Qubit>{0, (Qubit)(nq - 1)}, Barrier);
  case 4: { auto ph = std::vector<fp>{0.4}; return std::make_unique<StandardOperation>(Controls{}, std::vector<Qubit>{}, GPhase, ph); }
  case 5: {
    auto in = anyOp(nq, nc, small ? -1 : 0, small);
    sym_assume(in->getType() != Barrier);
    if (pinB("onBit")) return std::make_unique<ClassicControlledOperation>(std::move(in), (Bit)pin("cbit", 0, nc - 1), pin("exp", 0, 1), pinB("neq") ? Neq : Eq);
    const ComparisonKind ks[] = {Eq, Neq, Lt, Leq, Gt, Geq};
    return std::make_unique<ClassicControlledOperation>(std::move(in), ClassicalRegister(0, nc, "c"), pin("exp", 0, small && sym_tier() == 0 ? 1 : 3), ks[pin("cmp", 0, small && sym_tier() == 0 ? 2 : 5)]);
  }
  default: {
    auto c = std::make_unique<CompoundOperation>(!small && pinB("custom"));
    c->emplace_back(anyOp(nq, nc, small ? -1 : 0, small));
    if (pinB("two")) c->emplace_back(std::make_unique<StandardOperation>((Qubit)0, H));
    return c;
  }
  }
}
static Dens channel(const Operation &op, unsigned n, unsigned nc, std::uint64_t c0) {
  Ens e{Branch{c0, choiState(n)}};
  (void)nc;
  applyOp(e, op);
  return density(e);
}
HARNESS(cloneOp) {
  const unsigned nq = 2, nc = 2;
  auto op = anyOp(nq, nc, 1);
  std::unique_ptr<Operation> c;
  const unsigned how = pin("how", 0, 2);
  if (how == 0) c = op->clone();
  else if (how == 1) { // copy of a circuit
    QuantumComputation q(nq, nc, 1);
    q.gphase(0.25);
    q.emplace_back(op->clone());
    QuantumComputation r(q);
    sym_assert(r == q, "copy of a circuit differs");
    sym_assert(r.getGlobalPhase() == q.getGlobalPhase(), "copy of a circuit has another global phase");
    c = std::move(r.at(0));
  } else {
    QuantumComputation q(nq, nc, 1), r(1, 1, 2);
    q.gphase(0.25);
    q.emplace_back(op->clone());
    r.x(0);
    r = q;
    sym_assert(r == q, "assigned circuit differs");
    c = std::move(r.at(0));
  }
  sym_assert(*c == *op && *op == *c, "clone does not compare equal");
  std::function<void(const Operation &, const Operation &)> sameCustom = [&](const Operation &a, const Operation &b) {
    const auto *x = dynamic_cast<const CompoundOperation *>(&a), *y = dynamic_cast<const CompoundOperation *>(&b);
    sym_assert((x == nullptr) == (y == nullptr), "clone is a group where the original is not");
    if (!x) return;
    sym_assert(x->isCustomGate() == y->isCustomGate(), "clone of a custom gate is not a custom gate");
    for (size_t i = 0; i < x->size(); ++i) sameCustom(**(x->begin() + (long)i), **(y->begin() + (long)i));
  };
  sameCustom(*op, *c);
  sym_assert(c->getType() == op->getType() && c->getName() == op->getName(), "clone has another type or name");
  const std::uint64_t c0 = pin("creg", 0, 3);
  assertSameDens(channel(*op, nq, nc, c0), channel(*c, nq, nc, c0), "clone acts differently");
  sym_cover("clone");
}
// equality of the non-standard kinds is sound
HARNESS(eqKinds) {
  const unsigned nq = 2, nc = 2;
  auto a = anyOp(nq, nc, 1, true), b = anyOp(nq, nc, 1, true);
  const bool eq = *a == *b;
  sym_assert((*b == *a) == eq, "equality of operations is not symmetric");
  if (eq) {
    sym_cover("equal");
    sym_assert(std::hash<Operation>{}(*a) == std::hash<Operation>{}(*b), "equal operations have different hashes");
    if (a->getType() == Measure) sym_assert(std::hash<NonUnitaryOperation>{}(dynamic_cast<NonUnitaryOperation &>(*a)) == std::hash<NonUnitaryOperation>{}(dynamic_cast<NonUnitaryOperation &>(*b)), "equal measurements have different hashes");
    if (a->getType() == Compound) sym_assert(std::hash<CompoundOperation>{}(dynamic_cast<CompoundOperation &>(*a)) == std::hash<CompoundOperation>{}(dynamic_cast<CompoundOperation &>(*b)), "equal compound operations have different hashes");
    if (a->getType() == ClassicControlled) sym_assert(std::hash<ClassicControlledOperation>{}(dynamic_cast<ClassicControlledOperation &>(*a)) == std::hash<ClassicControlledOperation>{}(dynamic_cast<ClassicControlledOperation &>(*b)), "equal classically controlled operations have different hashes");
    const std::uint64_t c0 = pin("creg", 0, 3);
    assertSameDens(channel(*a, nq, nc, c0), channel(*b, nq, nc, c0), "operations that compare equal act differently");
  }
}
HARNESS(commute) {
  const OpType few[] = {X, Z, RZ, U, U2, SWAP, DCX, RZZ, RZX, XXminusYY, Peres};
  GateCfg a, b;
  a.t = sym_tier() ? pick("type", kAll) : pick("type", few); pickQubits(a, 3, isTwo(a.t) ? 2 : 1, 1, 2);
  b.t = sym_tier() ? pick("type", kAll) : pick("type", few); pickQubits(b, 3, isTwo(b.t) ? 2 : 1, 1, 1);
  for (int i = 0; i < numParams(a.t); ++i) a.p.push_back(0.3 + i);
  const bool sameP = pinB("sameParam");
  for (int i = 0; i < numParams(b.t); ++i) b.p.push_back(sameP ? 0.3 + i : 0.9 - i);
  auto x = makeStd(a), y = makeStd(b);
  bool all = true;
  for (Qubit q = 0; q < 3; ++q) all = all && x->commutesAtQubit(*y, q);
  if (!all) return;
  sym_cover("commutes");
  for (unsigned s = 0; s < 8; ++s) {
    SV v = basis(3, s), w = v;
    applyOpSV(v, *x); applyOpSV(v, *y);
    applyOpSV(w, *y); applyOpSV(w, *x);
    assertSameSV(v, w, "operations reported to commute do not");
  }
}
// inverse of a circuit, angles symbolic
HARNESS(invCircSym) {
  sym_real_mode();
  QuantumComputation qc(2);
  if (sym_bool("phase")) qc.gphase(sym_real("gphase", 0.1, 3.0));
  GateCfg g;
  const OpType sym[] = {P, RX, RZ, RZZ, RYY, XXplusYY, U2};
  g.t = sym_tier() ? pick("type", kAll) : pick("type", sym);
  pickQubits(g, 2, isTwo(g.t) ? 2 : 1, 1, 2);
  for (int i = 0; i < numParams(g.t); ++i) g.p.push_back(sym_real("angle", 0.1, 1.5));
  qc.emplace_back(makeStd(g));
  qc.h(0);
  GateCfg k;
  const OpType ts[] = {RY, iSWAP, T};
  k.t = ts[pin("type2", 0, sym_tier() ? 2 : 1)];
  pickQubits(k, 2, isTwo(k.t) ? 2 : 1, sym_tier(), 1);
  for (int i = 0; i < numParams(k.t); ++i) k.p.push_back(sym_real("angle", 0.1, 1.5));
  qc.emplace_back(makeStd(k));
  QuantumComputation inv(qc);
  inv.invert();
  for (unsigned s = 0; s < 4; ++s) {
    Ens e{Branch{0, basis(2, s)}};
    applyCirc(e, qc); applyCirc(e, inv);
    assertSameSV(e[0].v, basis(2, s), "a circuit followed by its inverse is not the identity");
  }
  sym_cover("inv");
}
// every standard gate in every position, fixed angles (special ones included);
// nested in compound operations; name and type stay consistent; double inverse
HARNESS(invCirc) {
  const unsigned nq = 3;
  GateCfg g = anyGate(nq, 2, 2);
  concAngles(g, 5);
  QuantumComputation qc(nq);
  qc.ch(0, 1);
  const bool comp = pinB("compound");
  if (comp) {
    auto c = std::make_unique<CompoundOperation>();
    const Qubit u = (g.tg[0] + 1) % nq;
    c->emplace_back(makeStd(g));
    c->emplace_back(std::make_unique<StandardOperation>(Control{g.tg[0]}, u, Y));
    c->emplace_back(std::make_unique<StandardOperation>(u, SX));
    qc.emplace_back(std::move(c));
  } else qc.emplace_back(makeStd(g));
  qc.t(1);
  QuantumComputation inv(qc), two(qc);
  inv.invert();
  sym_assert(inv.size() == qc.size(), "inverse has another number of operations");
  for (unsigned s = 0; s < 8; ++s) {
    Ens e{Branch{0, basis(nq, s)}};
    applyCirc(e, qc); applyCirc(e, inv);
    assertSameSV(e[0].v, basis(nq, s), "a circuit followed by its inverse is not the identity");
  }
  for (const auto &o : inv) if (o->isStandardOperation()) sym_assert(o->getName() == toString(o->getType()), "the name of an inverted operation does not match its type");
  two.invert(); two.invert();
  assertSameU(unitary(two, nq), unitary(qc, nq), "inverting twice changes the circuit");
  sym_cover("inv");
}
// compound operations under invert, controls, permutation, inverse relation
static std::unique_ptr<CompoundOperation> smallComp(unsigned nq, unsigned len, const OpType *ts, unsigned nts, int ctl) {
  auto c = std::make_unique<CompoundOperation>();
  for (unsigned i = 0; i < len; ++i) {
    GateCfg g;
    g.t = ts[pin("type", 0, nts - 1)];
    pickQubits(g, nq, isTwo(g.t) ? 2 : 1, 1, ctl);
    for (int k = 0; k < numParams(g.t); ++k) g.p.push_back(0.7);
    c->emplace_back(makeStd(g));
  }
  return c;
}
HARNESS(compCtrl) {
  const OpType ts[] = {X, S, RY, SWAP, DCX};
  auto c = smallComp(2, 2, ts, 5, 1);
  const bool neg = pinB("neg");
  auto d = std::make_unique<CompoundOperation>(*c);
  Control ctl{2, neg ? Control::Type::Neg : Control::Type::Pos};
  d->addControl(ctl);
  auto u = unitary(*c, 3), w = unitary(*d, 3);
  for (unsigned s = 0; s < 8; ++s) {
    const bool on = ((s >> 2) & 1U) != (neg ? 1U : 0U);
    assertSameSV(w[s], on ? u[s] : basis(3, s), "adding a control to a compound operation is not the controlled operation");
  }
  if (pinB("clear")) d->clearControls(); else d->removeControl(ctl);
  sym_assert(*d == *c, "removing an added control does not restore the operation");
  assertSameU(unitary(*d, 3), u, "removing an added control does not restore the operation");
  sym_cover("ctrl");
}
HARNESS(compInv) {
  const OpType ts[] = {X, S, Sdg, RY, DCX};
  auto a = smallComp(2, 2, ts, 5, 1), b = smallComp(2, 2, ts, 5, sym_tier());
  if (a->isInverseOf(*b)) {
    sym_cover("inverse");
    for (unsigned s = 0; s < 4; ++s) {
      Ens e{Branch{0, basis(2, s)}};
      applyOp(e, *a); applyOp(e, *b);
      assertSameSV(e[0].v, basis(2, s), "compound operations reported as inverses are not");
    }
  }
  auto i = a->getInverted();
  sym_assert(a->isInverseOf(*i), "an operation is not reported as the inverse of its inverse");
  bool all = true;
  for (Qubit q = 0; q < 2; ++q) all = all && a->commutesAtQubit(*b, q);
  if (all) {
    sym_cover("commutes");
    for (unsigned s = 0; s < 4; ++s) {
      Ens e{Branch{0, basis(2, s)}}, f = e;
      applyOp(e, *a); applyOp(e, *b); applyOp(f, *b); applyOp(f, *a);
      assertSameSV(e[0].v, f[0].v, "compound operations reported to commute do not");
    }
  }
}
// an operation relabelled by a permutation acts like the original on relabelled qubits
HARNESS(permOp) {
  const unsigned nq = 3;
  GateCfg g = anyGate(nq, 2, 2);
  for (int i = 0; i < numParams(g.t); ++i) g.p.push_back(0.3 + i);
  static const unsigned ps[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const unsigned *p = ps[pin("perm", 0, 5)];
  Permutation perm;
  for (Qubit i = 0; i < nq; ++i) perm[i] = p[i];
  auto x = makeStd(g), y = makeStd(g);
  y->apply(perm);
  auto mapIdx = [&](unsigned s) { unsigned r = 0; for (unsigned i = 0; i < nq; ++i) if (s >> i & 1U) r |= 1U << p[i]; return r; };
  auto u = unitary(*x, nq), w = unitary(*y, nq);
  for (unsigned s = 0; s < 8; ++s) {
    SV v(8);
    for (unsigned i = 0; i < 8; ++i) v[mapIdx(i)] = u[s][i];
    assertSameSV(w[mapIdx(s)], v, "permuting an operation does not relabel its action");
  }
  sym_assert(x->equals(*y, perm, {}), "an operation does not equal its relabelled copy under the relabelling");
  for (Qubit q = 0; q < nq; ++q) sym_assert(x->actsOn(q) == y->actsOn(p[q]), "actsOn does not follow the relabelling");
  sym_cover("perm");
}
// inverse of a classically controlled gate under every register value
HARNESS(invCC) {
  const unsigned nq = 2, nc = 2;
  GateCfg g = anyGate(nq, 1, 2);
  concAngles(g, 1);
  std::unique_ptr<Operation> op;
  const ComparisonKind ks[] = {Eq, Neq, Lt, Leq, Gt, Geq};
  if (pinB("onBit")) op = std::make_unique<ClassicControlledOperation>(makeStd(g), (Bit)pin("cbit", 0, 1), pin("exp", 0, 1), pinB("neq") ? Neq : Eq);
  else op = std::make_unique<ClassicControlledOperation>(makeStd(g), ClassicalRegister(0, nc, "c"), 1 + pin("exp", 0, 1), ks[pin("cmp", 0, 5)]);
  QuantumComputation qc(nq, nc, 1);
  qc.emplace_back(std::move(op));
  qc.h(0);
  QuantumComputation inv(qc);
  inv.invert();
  const std::uint64_t c0 = pin("creg", 0, 3);
  for (unsigned s = 0; s < 4; ++s) {
    Ens e{Branch{c0, basis(nq, s)}};
    applyCirc(e, qc); applyCirc(e, inv);
    sym_assert(e.size() == 1 && e[0].c == c0, "classical bits changed");
    assertSameSV(e[0].v, basis(nq, s), "a classically controlled circuit followed by its inverse is not the identity");
  }
  sym_cover("inv");
}
