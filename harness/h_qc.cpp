// Circuit-level bookkeeping: registers, layouts, ancillae/garbage, reordering,
// measurements, output mapping, metrics, argument checking.
#include "sem.h"
#include <set>
#include <stdexcept>
using namespace qc;
// ---------------------------------------------------------------- registers
// every physical qubit of the layout lies in exactly one register and registers
// hold nothing else; sizes add up; flags fit; garbage is no output
static void invariants(QuantumComputation &q, bool logicalDense) {
  const auto n = q.getNqubits();
  sym_assert(n == q.getNqubitsWithoutAncillae() + q.getNancillae(), "qubit counts do not add up");
  sym_assert(q.initialLayout.size() == n, "the initial layout has another size than the circuit");
  std::set<Qubit> cover;
  size_t total = 0;
  auto scan = [&](const QuantumRegisterMap &m) {
    for (const auto &[name, r] : m) {
      sym_assert(name == r.getName(), "register stored under another name");
      sym_assert(r.getSize() > 0, "empty register");
      for (Qubit i = r.getStartIndex(); i < r.getStartIndex() + r.getSize(); ++i) { cover.insert(i); ++total; sym_assert(q.initialLayout.count(i) == 1, "a register holds a qubit that is not part of the layout"); }
    }
  };
  scan(q.getQuantumRegisters()); scan(q.getAncillaRegisters());
  sym_assert(cover.size() == total, "registers overlap");
  sym_assert(total == n, "registers do not cover the qubits of the circuit");
  std::set<Qubit> vals;
  for (const auto &[p, l] : q.initialLayout) vals.insert(l);
  sym_assert(vals.size() == n, "two physical qubits carry the same logical qubit");
  for (const auto &[p, l] : q.outputPermutation) sym_assert(q.initialLayout.count(p) == 1, "the output permutation names a qubit outside of the circuit");
  if (logicalDense) {
    sym_assert(vals.empty() || *vals.rbegin() == n - 1, "logical qubits are not numbered consecutively");
    size_t anc = 0;
    for (size_t i = 0; i < n; ++i) anc += q.getAncillary().at(i) ? 1U : 0U;
    sym_assert(anc == q.getNancillae(), "number of ancillary flags differs from the number of ancillae");
    for (size_t i = 0; i < n; ++i) if (q.getGarbage().at(i)) for (const auto &[p, l] : q.outputPermutation) sym_assert(l != i, "a garbage qubit is part of the output permutation");
    for (Qubit i = 0; i < n; ++i) {
      const auto ph = q.getPhysicalQubitIndex(i);
      sym_assert(q.initialLayout.at(ph) == i, "getPhysicalQubitIndex does not invert the layout");
      const auto c = q.containsLogicalQubit(i);
      sym_assert(c.first && c.second.has_value() && *c.second == ph, "containsLogicalQubit contradicts the layout");
      auto &r = q.getQubitRegister(ph);
      sym_assert(r.contains(ph) && r.getGlobalIndex(r.getLocalIndex(ph)) == ph, "getQubitRegister returns a wrong register");
    }
    sym_assert(n == 0 || (q.getHighestLogicalQubitIndex() == n - 1), "highest logical qubit index");
    sym_assert(n == 0 || (q.getHighestPhysicalQubitIndex() == *cover.rbegin()), "highest physical qubit index");
  }
}
HARNESS(registers) {
  QuantumComputation q(pin("n0", 1, 2), 1, 1);
  const unsigned steps = sym_tier() ? 4 : 3;
  static const char *names[] = {"a", "b", "q"};
  for (unsigned s = 0; s < steps; ++s) {
    const auto before = q.getNqubits();
    const unsigned op = pin("op", 0, 3);
    const auto qr = q.getQuantumRegisters().size() + q.getAncillaRegisters().size();
    if (op < 2) {
      const unsigned k = pin("size", 0, 2), nm = pin("name", 0, 2);
      bool threw = false;
      try { if (op == 0) q.addQubitRegister(k, names[nm]); else q.addAncillaryRegister(k, std::string("anc") + names[nm]); } catch (const std::runtime_error &) { threw = true; }
      if (threw) { sym_cover("rejected"); sym_assert(q.getNqubits() == before && q.getQuantumRegisters().size() + q.getAncillaRegisters().size() == qr, "a rejected register changed the circuit"); }
      else {
        sym_assert(q.getNqubits() == before + k && k > 0, "adding a register adds another number of qubits");
        for (auto i = before; i < before + k; ++i) sym_assert(q.getAncillary().at(i) == (op == 1) && !q.getGarbage().at(i), "new qubits carry wrong flags");
      }
    } else {
      const Qubit l = pinQ("logical", (unsigned)before);
      if (op == 2) { q.setLogicalQubitAncillary(l); sym_assert(q.logicalQubitIsAncillary(l), "ancillary flag not set"); }
      else { q.setLogicalQubitGarbage(l); sym_assert(q.logicalQubitIsGarbage(l), "garbage flag not set"); }
      sym_assert(q.getNqubits() == before, "marking a qubit changes the number of qubits");
    }
    invariants(q, true);
  }
  QuantumComputation c(q);
  sym_assert(c == q, "a copied circuit differs");
  invariants(c, true);
  sym_cover("done");
}
// unified registers, ranges of flags and classical registers
HARNESS(registerRanges) {
  const unsigned n0 = pin("n0", 1, 3), na = pin("anc", 0, 2), nc0 = pin("bits", 0, 1);
  QuantumComputation q(n0, nc0, 1);
  if (na) q.addAncillaryRegister(na, "anc");
  const unsigned n = n0 + na, steps = sym_tier() ? 3 : 2;
  for (unsigned s = 0; s < steps; ++s) {
    const QuantumComputation o(q);
    switch (pin("op", 0, 3)) {
    case 0: {
      const auto &r = q.unifyQuantumRegisters("u");
      sym_assert(r.getName() == "u" && r.getStartIndex() == 0 && r.getSize() == n, "the unified register does not hold all qubits");
      sym_assert(q.getQuantumRegisters().size() == 1 && q.getAncillaRegisters().empty(), "unifying leaves other registers behind");
      sym_assert(q.initialLayout == o.initialLayout && q.outputPermutation == o.outputPermutation, "unifying registers changes the layout");
      sym_cover("unified");
      break;
    }
    case 1: {
      const Qubit lo = pinQ("lo", n), hi = (Qubit)pin("hi", lo, n - 1);
      q.setLogicalQubitsAncillary(lo, hi);
      for (Qubit i = 0; i < n; ++i) {
        sym_assert(q.logicalQubitIsAncillary(i) == (o.logicalQubitIsAncillary(i) || (lo <= i && i <= hi)), "a range of ancillary qubits marks other qubits");
        sym_assert(q.logicalQubitIsGarbage(i) == o.logicalQubitIsGarbage(i), "marking ancillary qubits changes the garbage");
      }
      sym_assert(q.outputPermutation == o.outputPermutation, "marking ancillary qubits changes the outputs");
      break;
    }
    case 2: {
      const Qubit lo = pinQ("lo", n), hi = (Qubit)pin("hi", lo, n - 1);
      q.setLogicalQubitsGarbage(lo, hi);
      for (Qubit i = 0; i < n; ++i) {
        const bool in = lo <= i && i <= hi;
        sym_assert(q.logicalQubitIsGarbage(i) == (o.logicalQubitIsGarbage(i) || in), "a range of garbage qubits marks other qubits");
        sym_assert(q.logicalQubitIsAncillary(i) == o.logicalQubitIsAncillary(i), "marking garbage changes the ancillae");
        sym_assert(q.outputPermutation.count(i) == (in ? 0U : o.outputPermutation.count(i)), "marking garbage removes other outputs");
      }
      sym_assert(q.getNgarbageQubits() + q.getNmeasuredQubits() == n && q.getNmeasuredQubits() == q.outputPermutation.size(), "garbage and measured qubits do not add up");
      break;
    }
    default: {
      static const char *names[] = {"c", "d", "e"};
      const unsigned k = pin("size", 0, 2);
      const std::string nm = names[pin("name", 0, 2)];
      const bool bad = k == 0 || o.getClassicalRegisters().count(nm) != 0;
      bool threw = false;
      try { const auto &r = q.addClassicalRegister(k, nm); sym_assert(r.getName() == nm && r.getSize() == k && r.getStartIndex() == o.getNcbits(), "the new classical register has another name, size or position"); } catch (const std::runtime_error &) { threw = true; }
      sym_assert(threw == bad, "a classical register is rejected exactly if it is empty or its name is taken");
      sym_assert(q.getNcbits() == o.getNcbits() + (threw ? 0U : k), "number of bits after adding a register");
      if (threw) { sym_assert(q == o, "a rejected classical register changed the circuit"); sym_cover("rejected"); }
    }
    }
    invariants(q, true);
    std::set<Bit> bits; size_t total = 0;
    for (const auto &[name, r] : q.getClassicalRegisters()) for (Bit i = r.getStartIndex(); i < r.getStartIndex() + r.getSize(); ++i) { bits.insert(i); ++total; }
    sym_assert(bits.size() == total && total == q.getNcbits() && (total == 0 || *bits.rbegin() == total - 1), "classical registers do not cover the bits of the circuit");
  }
  sym_cover("done");
}
// removing idle qubits
HARNESS(strip) {
  const unsigned n = sym_tier() ? 4 : 3;
  QuantumComputation q(0, 0, 1);
  const unsigned na = pin("anc", 0, 1);
  const unsigned cut = pin("cut", 0, 1);
  if (cut) { q.addQubitRegister(1, "a"); if (n - na > 1) q.addQubitRegister(n - na - 1, "b"); } else q.addQubitRegister(n - na, "q");
  if (na) q.addAncillaryRegister(1, "anc");
  // permuted layout
  static const unsigned ps[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const unsigned *p = ps[pin("layout", 0, 5)];
  if (!na) for (Qubit i = 0; i < 3; ++i) { q.initialLayout[i] = p[i]; q.outputPermutation[i] = p[i]; }
  for (Qubit i = 0; i < n; ++i) { const unsigned k = pin("out", 0, 1); if (k) q.setLogicalQubitGarbage(i); }
  std::vector<bool> used(n);
  const Qubit u0 = pinQ("used", n), u1 = pinQ("used", n);
  used[u0] = used[u1] = true;
  q.x(u0);
  if (u1 != u0) q.cx(u0, u1);
  const bool force = pinB("force");
  QuantumComputation o(q);
  q.stripIdleQubits(force);
  invariants(q, true);
  for (Qubit i = 0; i < n; ++i) {
    const bool there = q.initialLayout.count(i) == 1;
    const bool isOut = o.outputPermutation.count(i) == 1;
    bool logOut = false;
    for (const auto &[pp, l] : o.outputPermutation) logOut = logOut || l == o.initialLayout.at(i);
    if (used[i]) sym_assert(there, "a qubit in use was stripped");
    else if (force) sym_assert(!there, "an idle qubit was not stripped");
    else sym_assert(there == (isOut || logOut), "stripping idle qubits keeps exactly those that are outputs");
    sym_assert(q.outputPermutation.count(i) == ((there && isOut) ? 1U : 0U), "stripping changed the outputs");
  }
  // surviving logical qubits keep their order and flags
  for (const auto &[pa, la] : q.initialLayout) {
    sym_assert(q.getAncillary().at(la) == o.getAncillary().at(o.initialLayout.at(pa)), "ancillary flag moved to another qubit");
    sym_assert(q.getGarbage().at(la) == o.getGarbage().at(o.initialLayout.at(pa)), "garbage flag moved to another qubit");
    for (const auto &[pb, lb] : q.initialLayout) sym_assert((la < lb) == (o.initialLayout.at(pa) < o.initialLayout.at(pb)), "stripping reorders logical qubits");
  }
  sym_assert(q.size() == o.size(), "stripping changed the operations");
  (void)q.toQASM(true);
  sym_cover("strip");
}
// remove an idle qubit and put it back as what it was
HARNESS(removeAdd) {
  const unsigned n = 3;
  QuantumComputation q(n, 0, 1);
  const Qubit l = pinQ("logical", n);
  QuantumComputation o(q);
  const auto [ph, out] = q.removeQubit(l);
  sym_assert(ph == o.getPhysicalQubitIndex(l), "removeQubit returns a wrong physical qubit");
  sym_assert(out.has_value() && *out == o.outputPermutation.at(ph), "removeQubit returns a wrong output");
  sym_assert(q.getNqubits() == n - 1 && q.initialLayout.count(ph) == 0 && q.outputPermutation.count(ph) == 0, "removeQubit left traces of the qubit");
  invariants(q, false);
  const Qubit again = pinQ("again", n + 2);
  bool threw = false;
  const bool anc = pinB("asAncilla");
  const bool free = q.initialLayout.count(again) == 0;
  const bool withOut = pinB("withOutput");
  std::optional<Qubit> oq;
  if (withOut) oq = again;
  try { if (anc) q.addAncillaryQubit(again, oq); else q.addQubit(l <= q.getNqubits() ? l : 0, again, oq); } catch (const std::runtime_error &) { threw = true; }
  sym_assert(threw == !free, "a qubit is added exactly if its physical position is free");
  if (!threw) {
    sym_assert(q.getNqubits() == n, "adding a qubit changes the count by one");
    sym_assert(q.getNancillae() == (anc ? 1U : 0U), "number of ancillae after adding a qubit");
    sym_assert(q.physicalQubitIsAncillary(again) == anc, "the new qubit lies in the wrong kind of register");
    sym_assert(q.initialLayout.count(again) == 1 && q.outputPermutation.count(again) == (withOut ? 1U : 0U), "the new qubit is missing in the layout");
    std::set<Qubit> cover; size_t total = 0;
    for (auto *m : {&q.getQuantumRegisters(), &q.getAncillaRegisters()}) for (const auto &[name, r] : *m) for (Qubit i = r.getStartIndex(); i < r.getStartIndex() + r.getSize(); ++i) { cover.insert(i); ++total; sym_assert(q.initialLayout.count(i) == 1, "a register holds a qubit that is not part of the layout"); }
    sym_assert(cover.size() == total && total == n, "registers do not match the layout");
  }
  sym_cover("done");
}
// ---------------------------------------------------------------- reordering
static void anyDynOp(QuantumComputation &q, unsigned nq, unsigned nc, unsigned lo, unsigned hi) {
  const unsigned k = pin("kind", lo, hi);
  switch (k) {
  case 0: q.h(pinQ("q", nq)); break;
  case 1: { unsigned a = pinQ("q", nq); unsigned d = 1 + pin("d", 0, nq - 2); q.cx(a, (a + d) % nq); break; }
  case 2: q.measure(pinQ("q", nq), pin("b", 0, nc - 1)); break;
  case 3: q.classicControlled(X, pinQ("q", nq), (Bit)pin("b", 0, nc - 1), 1U); break;
  case 4: q.reset(pinQ("q", nq)); break;
  case 5: { auto c = std::make_unique<CompoundOperation>(); const Qubit a = pinQ("q", nq); c->emplace_back(std::make_unique<StandardOperation>(a, T)); c->emplace_back(std::make_unique<StandardOperation>(Control{(Qubit)((a + 1) % nq)}, a, Y)); q.emplace_back(std::move(c)); break; }
  case 6: { std::vector<fp> p{0.7}; q.emplace_back(std::make_unique<StandardOperation>(Controls{}, std::vector<Qubit>{}, GPhase, p)); break; }
  default: q.barrier(); break;
  }
}
HARNESS(reorder) {
  const unsigned nq = 2, nc = 2, len = sym_tier() ? 4 : 3;
  QuantumComputation q(nq, nc, 1);
  q.h(0);
  q.ry(0.8, 1);
  for (unsigned i = 0; i < len; ++i) anyDynOp(q, nq, nc, 0, 7);
  QuantumComputation o(q);
  q.reorderOperations();
  sym_assert(q.size() == o.size(), "reordering changes the number of operations");
  Ens a{Branch{0, choiState(nq)}}, b = a;
  applyCirc(a, o); applyCirc(b, q);
  assertSameDens(density(a), density(b), "reordering changes what the circuit does");
  QuantumComputation t(q);
  t.reorderOperations();
  sym_assert(t == q, "reordering is not idempotent");
  sym_cover("reorder");
}
// two circuits that only differ in the order of independent neighbours get the same order
HARNESS(reorderCanon) {
  const unsigned nq = 3;
  QuantumComputation a(nq), b(nq);
  struct G { Qubit t; int c; };
  std::vector<G> g;
  const unsigned len = 3;
  for (unsigned i = 0; i < len; ++i) { G x; x.t = pinQ("t", nq); x.c = (int)pin("c", 0, nq) - 1; sym_assume(x.c != (int)x.t); g.push_back(x); }
  const unsigned i = pin("swap", 0, len - 2);
  auto touches = [](const G &x, const G &y) { return x.t == y.t || (int)x.t == y.c || x.c == (int)y.t || (x.c >= 0 && x.c == y.c); };
  sym_assume(!touches(g[i], g[i + 1]));
  auto put = [](QuantumComputation &q, const G &x) { if (x.c >= 0) q.cx((Qubit)x.c, x.t); else q.x(x.t); };
  for (auto &x : g) put(a, x);
  std::swap(g[i], g[i + 1]);
  for (auto &x : g) put(b, x);
  b.initialLayout = a.initialLayout;
  a.reorderOperations(); b.reorderOperations();
  for (size_t k = 0; k < a.size(); ++k) sym_assert(*a.at(k) == *b.at(k), "the canonical order depends on the order of independent operations");
  sym_cover("canon");
}
// ---------------------------------------------------------------- measurement
HARNESS(ioMapping) {
  const unsigned n = 3;
  QuantumComputation q(n, 3, 1);
  const bool fresh = pinB("noOutputs");
  if (fresh) q.outputPermutation.clear();
  if (pinB("ancilla")) q.setLogicalQubitAncillary(2);
  if (pinB("gate")) q.cx(0, 1); 
  std::map<Qubit, Bit> first;
  std::set<Bit> taken;
  const unsigned ops = pin("ops", 0, 2);
  for (unsigned k = 0; k < ops; ++k) {
    std::vector<Qubit> qs; std::vector<Bit> bs;
    const unsigned m = pin("m", 1, 2);
    for (unsigned j = 0; j < m; ++j) {
      const Qubit a = pinQ("q", n); const Bit b = pin("b", 0, 2);
      for (auto x : qs) sym_assume(x != a);
      for (auto x : bs) sym_assume(x != b);
      qs.push_back(a); bs.push_back(b);
      if (!first.count(a)) { sym_assume(!taken.count(b)); first[a] = b; taken.insert(b); }
    }
    q.measure(qs, bs);
  }
  const bool hasOut = !fresh;
  q.initializeIOMapping();
  if (!first.empty()) {
    sym_cover("measured");
    for (Qubit i = 0; i < n; ++i) {
      const auto it = q.outputPermutation.find(i);
      if (!first.count(i)) { sym_assert(it == q.outputPermutation.end(), "a qubit that is not measured is an output"); continue; }
      const bool ancIdle = q.logicalQubitIsAncillary((Qubit)first[i]) && q.isIdleQubit((Qubit)q.getPhysicalQubitIndex((Qubit)first[i]));
      if (!ancIdle) sym_assert(it != q.outputPermutation.end() && it->second == first[i], "a measurement into bit j does not make the qubit output j");
    }
  } else if (hasOut) for (Qubit i = 0; i < n; ++i) { const bool ancIdle = q.logicalQubitIsAncillary(i) && q.isIdleQubit(i); sym_assert((q.outputPermutation.count(i) == 1) == !ancIdle, "outputs of a circuit without measurements"); }
  for (const auto &[p, l] : q.initialLayout) {
    bool out = false;
    for (const auto &[pp, ll] : q.outputPermutation) out = out || ll == l;
    sym_assert(q.logicalQubitIsGarbage(l) == !out, "exactly the logical qubits that are no outputs are garbage");
  }
  sym_cover("io");
}
HARNESS(measureAll) {
  const unsigned n = 1 + pin("n", 0, 2), pre = pin("pre", 0, 3);
  QuantumComputation q(n, pre, 1);
  const unsigned x = pin("x", 0, (1U << n) - 1);
  for (unsigned i = 0; i < n; ++i) if (x >> i & 1U) q.x(i);
  const unsigned mode = pin("mode", 0, 2);
  bool threw = false;
  if (mode == 2) {
    // permuted outputs
    const unsigned r = pin("rot", 0, n - 1);
    for (Qubit i = 0; i < n; ++i) q.outputPermutation[i] = (i + r) % n;
    if (n > 1 && pinB("garbage")) q.setLogicalQubitGarbage(0);
    const auto out = q.outputPermutation;
    try { q.appendMeasurementsAccordingToOutputPermutation("c"); } catch (const std::runtime_error &) { threw = true; }
    if (threw) { sym_assert(pre > 0 && pre < out.maxValue() + 1, "appending measurements was rejected"); return; }
    Ens e{Branch{0, basis(n, 0)}};
    applyCirc(e, q);
    sym_assert(e.size() == 1, "basis state is measured deterministically");
    for (const auto &[ph, bit] : out) { sym_assert(bit < q.getNcbits() || true, ""); sym_assert((e[0].c >> bit & 1U) == (x >> ph & 1U), "appended measurements do not follow the output permutation"); }
    sym_cover("append");
    return;
  }
  const bool add = mode == 0;
  try { q.measureAll(add); } catch (const std::runtime_error &) { threw = true; }
  sym_assert(threw == (!add && pre < n), "measureAll is rejected exactly if there are too few bits");
  if (threw) return;
  sym_assert(q.getNcbits() == pre + (add ? n : 0), "measureAll adds a bit per qubit");
  Ens e{Branch{0, basis(n, 0)}};
  applyCirc(e, q);
  sym_assert(e.size() == 1, "basis state is measured deterministically");
  sym_assert(e[0].c == (std::uint64_t)x << (add ? pre : 0), "measureAll does not measure qubit i into bit i");
  sym_cover("all");
}
// ---------------------------------------------------------------- dynamic
HARNESS(dynamic) {
  const unsigned nq = 2, nc = 2;
  QuantumComputation q(nq, nc, 1);
  const unsigned len = pin("len", 0, 3);
  bool ref = false;
  std::vector<bool> meas(nq);
  for (unsigned i = 0; i < len; ++i) {
    const size_t k = q.size();
    anyDynOp(q, nq, nc, 0, 5);
    const auto &op = *q.at(k);
    if (op.getType() == Reset || op.isClassicControlledOperation()) ref = true;
    else if (op.getType() == Measure) meas[op.getTargets()[0]] = true;
    else for (auto x : op.getUsedQubits()) if (meas[x]) ref = true;
  }
  if (pinB("nest")) { auto c = std::make_unique<CompoundOperation>(); for (auto &op : q) c->emplace_back(op->clone()); QuantumComputation r(nq, nc, 1); r.emplace_back(std::move(c)); sym_assert(r.isDynamic() == ref, "isDynamic of a compound operation"); }
  sym_assert(q.isDynamic() == ref, "isDynamic");
  sym_cover("dyn");
}
HARNESS(dynamicSym) {
  QuantumComputation q(1, 1, 1);
  if (pinB("sym")) q.rx(Symbolic(sym::Variable("a")), 0); else q.rx(0.3, 0);
  const bool m = pinB("measure");
  if (m) q.measure(0, 0);
  if (pinB("again")) { q.rx(Symbolic(sym::Variable("a")), 0); sym_assert(q.isDynamic() == m, "isDynamic of a symbolic circuit"); }
  else sym_assert(!q.isDynamic(), "isDynamic of a symbolic circuit");
  sym_cover("dyn");
}
// ---------------------------------------------------------------- metrics
HARNESS(metrics) {
  const unsigned nq = 3, nc = 1, len = 3;
  QuantumComputation q(nq, nc, 1);
  for (unsigned i = 0; i < len; ++i) {
    const unsigned k = pin("kind", 0, 4);
    if (k == 0) q.h(pinQ("q", nq));
    else if (k == 1) { unsigned a = pinQ("q", nq); q.cx(a, (a + 1) % nq); }
    else if (k == 2) q.measure(pinQ("q", nq), 0);
    else if (k == 3) q.barrier();
    else { auto c = std::make_unique<CompoundOperation>(); const Qubit a = pinQ("q", nq); c->emplace_back(std::make_unique<StandardOperation>(a, T)); c->emplace_back(std::make_unique<StandardOperation>(Control{(Qubit)((a + 1) % nq)}, a, Y)); q.emplace_back(std::move(c)); }
  }
  // reference: longest chain of operations sharing qubits, barriers do not count
  std::vector<size_t> lvl(nq);
  size_t single = 0, indiv = 0;
  auto one = [&](const Operation &op) {
    if (op.getType() == Barrier) return;
    size_t m = 0;
    for (auto x : op.getUsedQubits()) m = std::max(m, lvl[x]);
    for (auto x : op.getUsedQubits()) lvl[x] = m + 1;
    if (op.isStandardOperation() && !op.isControlled() && op.getNtargets() == 1) ++single;
  };
  for (const auto &op : q) {
    if (op->isCompoundOperation()) { auto &c = dynamic_cast<CompoundOperation &>(*op); for (auto &s : c) one(*s); indiv += c.size(); }
    else { one(*op); ++indiv; }
  }
  size_t depth = 0;
  for (auto l : lvl) depth = std::max(depth, l);
  sym_assert(q.getDepth() == depth, "circuit depth is not the length of the longest chain of operations");
  sym_assert(q.getNindividualOps() == indiv, "number of individual operations");
  sym_assert(q.getNsingleQubitOps() == single, "number of single-qubit operations");
  for (Qubit x = 0; x < nq; ++x) {
    bool idle = true;
    for (const auto &op : q) { auto u = op->getUsedQubits(); if (u.count(x)) idle = false; sym_assert(op->actsOn(x) == (u.count(x) == 1), "actsOn contradicts the used qubits"); }
    sym_assert(q.isIdleQubit(x) == idle, "isIdleQubit");
  }
  for (auto it = q.cbegin(); it != q.cend(); ++it) {
    bool last = true;
    auto u = (*it)->getUsedQubits();
    for (auto jt = it + 1; jt != q.cend(); ++jt) for (auto x : (*jt)->getUsedQubits()) if (u.count(x)) last = false;
    sym_assert(q.isLastOperationOnQubit(it, q.cend()) == last, "isLastOperationOnQubit");
  }
  sym_cover("metrics");
}
// a reset circuit behaves like a newly constructed one
HARNESS(resetCirc) {
  QuantumComputation q(2, 1, 1);
  if (pinB("phase")) q.gphase(0.4);
  if (pinB("anc")) q.setLogicalQubitAncillary(1);
  if (pinB("garbage")) q.setLogicalQubitGarbage(0);
  if (pinB("sym")) q.rx(Symbolic(sym::Variable("a")), 0); else q.h(0);
  q.reset();
  QuantumComputation f(0, 0, 1);
  sym_assert(q == f, "a reset circuit is not an empty circuit");
  q.addQubitRegister(2); f.addQubitRegister(2);
  q.x(0); f.x(0);
  sym_assert(q == f, "a reset circuit does not behave like a new one");
  sym_cover("reset");
}
// circuits made of a compound operation
HARNESS(fromCompound) {
  CompoundOperation c;
  const unsigned nq = 3, nc = 3;
  QuantumComputation tmp(nq, nc, 1);
  const unsigned len = 2;
  for (unsigned i = 0; i < len; ++i) anyDynOp(tmp, nq, nc, 0, 5);
  const bool nest = pinB("nest");
  if (nest) { auto d = std::make_unique<CompoundOperation>(); for (auto &o : tmp) d->emplace_back(o->clone()); c.emplace_back(std::move(d)); }
  else for (auto &o : tmp) c.emplace_back(o->clone());
  auto q = QuantumComputation::fromCompoundOperation(c);
  unsigned mq = 0; for (auto x : c.getUsedQubits()) mq = std::max<unsigned>(mq, x);
  sym_assert(q.getNqubits() == mq + 1, "number of qubits of a circuit made from a compound operation");
  unsigned mb = 0;
  for (auto &o : tmp) {
    if (o->getType() == Measure) for (auto b : dynamic_cast<NonUnitaryOperation &>(*o).getClassics()) mb = std::max<unsigned>(mb, b);
    if (o->isClassicControlledOperation()) mb = std::max<unsigned>(mb, *dynamic_cast<ClassicControlledOperation &>(*o).getControlBit());
  }
  sym_assert(q.getNcbits() >= mb + 1, "a circuit made from a compound operation lacks classical bits it uses");
  sym_cover("from");
}
