// Building circuits: every method that appends an operation, its arguments,
// names of operation types, global phases, textual output.
#include "sem.h"
#include "ir/operations/AodOperation.hpp"
#include "ir/operations/Expression.hpp"
#include <iostream>
#include <set>
#include <sstream>
#include <stdexcept>
using namespace qc;
using Par = std::vector<SymbolOrNumber>;
struct Builder {
  const char *name; OpType type; int np, nt;
  void (*plain)(QuantumComputation &, const Par &, Qubit, Qubit);
  void (*ctl)(QuantumComputation &, const Par &, const Control &, Qubit, Qubit);
  void (*multi)(QuantumComputation &, const Par &, const Controls &, Qubit, Qubit);
};
#define QQ QuantumComputation &q, const Par &p
#define B10(n, T) {#n, T, 0, 1, [](QQ, Qubit a, Qubit) { (void)p; q.n(a); }, [](QQ, const Control &c, Qubit a, Qubit) { (void)p; q.c##n(c, a); }, [](QQ, const Controls &c, Qubit a, Qubit) { (void)p; q.mc##n(c, a); }}
#define B11(n, T) {#n, T, 1, 1, [](QQ, Qubit a, Qubit) { q.n(p[0], a); }, [](QQ, const Control &c, Qubit a, Qubit) { q.c##n(p[0], c, a); }, [](QQ, const Controls &c, Qubit a, Qubit) { q.mc##n(p[0], c, a); }}
#define B12(n, T) {#n, T, 2, 1, [](QQ, Qubit a, Qubit) { q.n(p[0], p[1], a); }, [](QQ, const Control &c, Qubit a, Qubit) { q.c##n(p[0], p[1], c, a); }, [](QQ, const Controls &c, Qubit a, Qubit) { q.mc##n(p[0], p[1], c, a); }}
#define B13(n, T) {#n, T, 3, 1, [](QQ, Qubit a, Qubit) { q.n(p[0], p[1], p[2], a); }, [](QQ, const Control &c, Qubit a, Qubit) { q.c##n(p[0], p[1], p[2], c, a); }, [](QQ, const Controls &c, Qubit a, Qubit) { q.mc##n(p[0], p[1], p[2], c, a); }}
#define B20(n, T) {#n, T, 0, 2, [](QQ, Qubit a, Qubit b) { (void)p; q.n(a, b); }, [](QQ, const Control &c, Qubit a, Qubit b) { (void)p; q.c##n(c, a, b); }, [](QQ, const Controls &c, Qubit a, Qubit b) { (void)p; q.mc##n(c, a, b); }}
#define B21(n, T) {#n, T, 1, 2, [](QQ, Qubit a, Qubit b) { q.n(p[0], a, b); }, [](QQ, const Control &c, Qubit a, Qubit b) { q.c##n(p[0], c, a, b); }, [](QQ, const Controls &c, Qubit a, Qubit b) { q.mc##n(p[0], c, a, b); }}
#define B22(n, T) {#n, T, 2, 2, [](QQ, Qubit a, Qubit b) { q.n(p[0], p[1], a, b); }, [](QQ, const Control &c, Qubit a, Qubit b) { q.c##n(p[0], p[1], c, a, b); }, [](QQ, const Controls &c, Qubit a, Qubit b) { q.mc##n(p[0], p[1], c, a, b); }}
static const Builder kB[] = {
    B10(i, I), B10(x, X), B10(y, Y), B10(z, Z), B10(h, H), B10(s, S), B10(sdg, Sdg), B10(t, T), B10(tdg, Tdg), B10(v, V), B10(vdg, Vdg), B10(sx, SX), B10(sxdg, SXdg),
    B11(rx, RX), B11(ry, RY), B11(rz, RZ), B11(p, P), B12(u2, U2), B13(u, U),
    B20(swap, SWAP), B20(dcx, DCX), B20(ecr, ECR), B20(iswap, iSWAP), B20(iswapdg, iSWAPdg), B20(peres, Peres), B20(peresdg, Peresdg), B20(move, Move),
    B21(rxx, RXX), B21(ryy, RYY), B21(rzz, RZZ), B21(rzx, RZX), B22(xx_minus_yy, XXminusYY), B22(xx_plus_yy, XXplusYY)};
static const unsigned kNB = sizeof(kB) / sizeof(kB[0]);
// the operation that is expected to have been appended: the gate of the given
// type, compared as a unitary on all qubits (Move, which has none, by fields)
static void isGate(const Operation &op, const Builder &b, const std::vector<double> &p, const Controls &c, const std::vector<Qubit> &tg, unsigned n) {
  sym_assert(op.isStandardOperation() && !op.isSymbolicOperation(), "a gate with numbers as parameters is no standard operation");
  sym_assert(op.getName() == toString(op.getType()), "the name of an appended operation does not fit its type");
  if (b.type == Move) {
    sym_assert(op.getType() == Move && op.getTargets() == Targets(tg.begin(), tg.end()) && op.getControls() == c, "the appended operation is not the move asked for");
    return;
  }
  std::set<Qubit> want(tg.begin(), tg.end()); for (const auto &x : c) want.insert(x.qubit);
  if (b.type != I) sym_assert(op.getUsedQubits() == want, "the appended operation uses other qubits");
  unsigned m, val; ctrlMask(c, m, val);
  for (unsigned x = 0; x < (1U << n); ++x) {
    SV s = basis(n, x), r = s;
    applyOpSV(s, op);
    std::vector<unsigned> q(tg.begin(), tg.end()); applyMat(r, refGate(b.type, p), q, m, val);
    assertSameSV(s, r, "the appended operation is another gate than the method's name says");
  }
}
struct Args { unsigned variant; Controls c; std::vector<Qubit> tg; bool ok = true; };
// distinct targets and controls among `hi` qubits of which n exist
static Args pickArgs(const Builder &b, unsigned n, unsigned hi) {
  Args a;
  a.variant = pin("variant", 0, 2);
  std::vector<unsigned> freeq; for (unsigned x = 0; x < hi; ++x) freeq.push_back(x);
  auto take = [&](const char *nm) { const unsigned k = pin(nm, 0, (unsigned)freeq.size() - 1); const unsigned x = freeq[k]; freeq.erase(freeq.begin() + k); if (x >= n) a.ok = false; return (Qubit)x; };
  a.tg.push_back(take("target"));
  if (b.nt == 2) a.tg.push_back(take("target2"));
  const unsigned nc = a.variant == 0 ? 0 : a.variant == 1 ? 1 : 2;
  for (unsigned i = 0; i < nc && !freeq.empty(); ++i) { const Qubit x = take("control"); a.c.emplace(Control{x, pinB("neg") ? Control::Type::Neg : Control::Type::Pos}); }
  return a;
}
static void call(QuantumComputation &q, const Builder &b, const Args &a, const Par &p) {
  const Qubit t1 = a.tg.size() > 1 ? a.tg[1] : 0;
  if (a.variant == 0) b.plain(q, p, a.tg[0], t1);
  else if (a.variant == 1) b.ctl(q, p, *a.c.begin(), a.tg[0], t1);
  else b.multi(q, p, a.c, a.tg[0], t1);
}
// every gate method appends its gate, with any parameters
HARNESS(buildGate) {
  const Builder &b = kB[pin("method", 0, kNB - 1)];
  const unsigned n = b.nt == 2 ? 4 : 3;
  sym_real_mode();
  QuantumComputation q(n, 0, 1);
  Args a; // one representative placement per variant: all placements are in buildArgs
  a.variant = pin("variant", 0, 2);
  const bool flip = pinB("flip");
  a.tg = b.nt == 2 ? (flip ? std::vector<Qubit>{3, 1} : std::vector<Qubit>{1, 2}) : (flip ? std::vector<Qubit>{2} : std::vector<Qubit>{1});
  if (a.variant >= 1) a.c.emplace(Control{0, flip ? Control::Type::Neg : Control::Type::Pos});
  if (a.variant == 2) a.c.emplace(Control{b.nt == 2 ? (flip ? 2U : 3U) : (flip ? 1U : 2U), Control::Type::Pos});
  if (a.variant == 0) a.c.clear();
  std::vector<double> v; Par p;
  for (int i = 0; i < b.np; ++i) { v.push_back(sym_real("angle", 0.1, 0.7)); p.emplace_back(v.back()); }
  q.h(0);
  call(q, b, a, p);
  sym_assert(q.getNops() == 2 && q.front()->getType() == H, "a method appends exactly one operation at the end");
  if (b.np == 0) isGate(*q.back(), b, v, a.c, a.tg, n);
  else { // the constructor's meaning for every angle is I01's subject
    const StandardOperation ref(a.c, Targets(a.tg.begin(), a.tg.end()), b.type, v);
    const Operation &op = *q.back();
    sym_assert(op.isStandardOperation() && op.getType() == ref.getType() && op.getTargets() == ref.getTargets() && op.getControls() == ref.getControls() && op.getName() == ref.getName(), "the appended operation is another gate than the method's name says");
    sym_assert(op.getParameter().size() == ref.getParameter().size(), "the appended operation has another number of parameters");
    for (size_t i = 0; i < ref.getParameter().size(); ++i) sym_assert(op.getParameter()[i] == ref.getParameter()[i], "the appended operation has other parameters");
  }
  sym_assert(q.getVariables().empty() && q.isVariableFree(), "numbers as parameters made the circuit symbolic");
  sym_cover("gate");
}
// operands: any distinct qubits, in range or not
HARNESS(buildArgs) {
  static const unsigned rep[] = {1, 4, 13, 17, 18, 19, 25, 26, 27, 31};
  const Builder &b = kB[sym_tier() ? pin("method", 0, kNB - 1) : rep[pin("method", 0, 9)]];
  const unsigned n = 3, hi = 4;
  QuantumComputation q(n, 0, 1);
  const Args a = pickArgs(b, n, hi);
  Par p; std::vector<double> v;
  for (int i = 0; i < b.np; ++i) { v.push_back(0.3 + 0.4 * i); p.emplace_back(v.back()); }
  bool threw = false;
  try { call(q, b, a, p); } catch (const std::out_of_range &) { threw = true; }
  sym_assert(threw == !a.ok, "a method rejects its operands exactly if a qubit is not part of the circuit");
  sym_assert(q.getNops() == (threw ? 0U : 1U), "a rejected method changed the circuit");
  if (!threw) { isGate(*q.back(), b, v, a.c, a.tg, n); sym_cover("appended"); }
  else sym_cover("rejected");
}
// symbolic parameters are kept, in order, and their variables are recorded
HARNESS(buildSymbolic) {
  static const unsigned par[] = {13, 14, 15, 16, 17, 18, 27, 28, 29, 30, 31, 32};
  const Builder &b = kB[par[pin("method", 0, 11)]];
  const unsigned n = b.nt == 2 ? 3 : 2;
  QuantumComputation q(n, 0, 1);
  Args a; a.variant = pin("variant", 0, 2);
  a.tg = b.nt == 2 ? std::vector<Qubit>{2, 1} : std::vector<Qubit>{1};
  if (a.variant) a.c.emplace(Control{0, Control::Type::Neg});
  Par p; std::vector<double> v; bool any = false; std::set<std::string> vars;
  static const char *nm[] = {"a", "b", "c"};
  static const double val[] = {0.7, -1.1, 1.9};
  for (int i = 0; i < b.np; ++i) {
    const unsigned k = pin("param", 0, 2);
    if (k == 0) { v.push_back(0.4 + i); p.emplace_back(v.back()); }
    else if (k == 1) { any = true; vars.insert(nm[i]); p.emplace_back(Symbolic(sym::Variable(nm[i]))); v.push_back(val[i]); }
    else { any = true; vars.insert("a"); vars.insert("c"); Symbolic e(sym::Term<fp>(sym::Variable("a"), 1.), sym::Term<fp>(sym::Variable("c"), -0.5)); e.setConst(0.1 * i); p.emplace_back(e); v.push_back(val[0] - 0.5 * val[2] + 0.1 * i); }
  }
  call(q, b, a, p);
  sym_assert(q.getNops() == 1 && q.front()->isSymbolicOperation() == any, "an operation is symbolic exactly if a parameter is");
  std::set<std::string> got; for (const auto &x : q.getVariables()) got.insert(x.getName());
  sym_assert(got == vars, "the circuit's variables are not those of its parameters");
  sym_assert(q.isVariableFree() == !any, "isVariableFree");
  const auto r = q.instantiate({{sym::Variable("a"), val[0]}, {sym::Variable("b"), val[1]}, {sym::Variable("c"), val[2]}});
  isGate(*r.front(), b, v, a.c, a.tg, n);
  sym_assert(r.isVariableFree() && r.getVariables().empty(), "an instantiated circuit still has variables");
  sym_assert(q.front()->isSymbolicOperation() == any, "instantiating changed the original circuit");
  sym_cover(any ? "symbolic" : "numeric");
}
// measurements, resets, barriers and conditions
HARNESS(buildOther) {
  const unsigned n = 2, nc = 3;
  QuantumComputation q(n, 0, 1);
  q.addClassicalRegister(1, "c0"); q.addClassicalRegister(2, "c1");
  const unsigned k = pin("method", 0, 12);
  bool ok = true, threw = false;
  auto Q = [&] { const unsigned x = pin("qubit", 0, n); ok &= x < n; return (Qubit)x; };
  auto C = [&] { const unsigned x = pin("bit", 0, nc); ok &= x < nc; return (Bit)x; };
  std::function<void(const Operation &)> chk;
  auto run = [&](const std::function<void()> &f) { try { f(); } catch (const std::out_of_range &) { threw = true; } catch (const std::runtime_error &) { threw = true; } };
  auto nonU = [](const Operation &o, OpType t, const Targets &tg, const std::vector<Bit> &bits) {
    auto sorted = [](Targets x) { std::sort(x.begin(), x.end()); return x; };
    sym_assert(o.getType() == t && (t == Measure ? o.getTargets() == tg : sorted(o.getTargets()) == sorted(tg)) && o.getControls().empty(), "the appended operation has another type or other targets");
    sym_assert(o.getName() == toString(t), "name of an appended operation");
    sym_assert(o.isUnitary() == (t == Barrier), "isUnitary of an appended operation");
    if (t == Measure) sym_assert(dynamic_cast<const NonUnitaryOperation &>(o).getClassics() == bits, "a measurement writes to other bits");
  };
  switch (k) {
  case 0: { const Qubit x = Q(); const Bit c = C(); run([&] { q.measure(x, c); }); chk = [=](const Operation &o) { nonU(o, Measure, {x}, {c}); }; break; }
  case 1: { const Qubit x = Q(), y = Q(); const Bit c = C(), d = C(); run([&] { q.measure({x, y}, {c, d}); }); chk = [=](const Operation &o) { nonU(o, Measure, {x, y}, {c, d}); }; break; }
  case 2: { const Qubit x = Q(); run([&] { q.reset(x); }); chk = [=](const Operation &o) { nonU(o, Reset, {x}, {}); }; break; }
  case 3: { const Qubit x = Q(), y = Q(); run([&] { q.reset({x, y}); }); chk = [=](const Operation &o) { nonU(o, Reset, {x, y}, {}); }; break; }
  case 4: { run([&] { q.barrier(); }); chk = [=](const Operation &o) { nonU(o, Barrier, {0, 1}, {}); }; break; }
  case 5: { const Qubit x = Q(); run([&] { q.barrier(x); }); chk = [=](const Operation &o) { nonU(o, Barrier, {x}, {}); }; break; }
  case 6: { const Qubit x = Q(), y = Q(); run([&] { q.barrier({x, y}); }); chk = [=](const Operation &o) { nonU(o, Barrier, {x, y}, {}); }; break; }
  default: { // conditions
    const unsigned f = k - 7; // bit / register, 0, 1, many controls
    const bool reg = f >= 3;
    const Qubit t = Q(); Controls cs;
    if (f % 3) { const unsigned x = 1 - std::min<unsigned>(t, 1); cs.emplace(Control{(Qubit)x, pinB("neg") ? Control::Type::Neg : Control::Type::Pos}); }
    const std::uint64_t val = pin("value", 0, reg ? 3 : 1);
    static const ComparisonKind cmps[] = {Eq, Neq, Lt, Leq, Gt, Geq};
    const ComparisonKind cmp = cmps[pin("cmp", 0, 5)];
    const bool par = pinB("param");
    const OpType ty = par ? RX : H;
    const std::vector<fp> pr = par ? std::vector<fp>{0.4} : std::vector<fp>{};
    // a single bit is tested for equality or inequality
    if (!reg) {
      const Bit c = C();
      if (cmp != Eq && cmp != Neq) { sym_cover("other comparison"); return; }
      if (f % 3 == 0) run([&] { q.classicControlled(ty, t, c, val, cmp, pr); });
      else if (f % 3 == 1) run([&] { q.classicControlled(ty, t, *cs.begin(), c, val, cmp, pr); });
      else run([&] { q.classicControlled(ty, t, cs, c, val, cmp, pr); });
      chk = [=](const Operation &o) {
        const auto &cc = dynamic_cast<const ClassicControlledOperation &>(o);
        sym_assert(cc.getControlBit().has_value() && *cc.getControlBit() == c && !cc.getControlRegister().has_value(), "a condition reads another bit");
      };
    } else {
      const unsigned start = pin("start", 0, 3), size = pin("size", 1, 3);
      ok &= start + size <= nc;
      const ClassicalRegister r(start, size, "r");
      if (f % 3 == 0) run([&] { q.classicControlled(ty, t, r, val, cmp, pr); });
      else if (f % 3 == 1) run([&] { q.classicControlled(ty, t, *cs.begin(), r, val, cmp, pr); });
      else run([&] { q.classicControlled(ty, t, cs, r, val, cmp, pr); });
      chk = [=](const Operation &o) {
        const auto &cc = dynamic_cast<const ClassicControlledOperation &>(o);
        sym_assert(cc.getControlRegister().has_value() && *cc.getControlRegister() == r && !cc.getControlBit().has_value(), "a condition reads another register");
      };
    }
    auto inner = chk;
    chk = [=](const Operation &o) {
      sym_assert(o.isClassicControlledOperation(), "a conditional operation is no classically controlled operation");
      inner(o);
      const auto &cc = dynamic_cast<const ClassicControlledOperation &>(o);
      // a bit that is to differ from a value is stored as one that equals the other
      const bool asked = cc.getComparisonKind() == cmp && cc.getExpectedValue() == val;
      const bool flipped = !reg && cmp == Neq && cc.getComparisonKind() == Eq && cc.getExpectedValue() == 1 - val;
      sym_assert(asked || flipped, "a condition compares with another value or in another way");
      const auto *g = cc.getOperation();
      sym_assert(g->getType() == ty && g->getTargets() == Targets{t} && g->getControls() == cs && g->getParameter() == pr, "the conditional gate is another gate");
    };
  } }
  sym_assert(threw == !ok, "a method rejects its operands exactly if a qubit or bit is not part of the circuit");
  sym_assert(q.getNops() == (threw ? 0U : 1U), "a rejected method changed the circuit");
  if (!threw) { chk(*q.back()); sym_cover("appended"); }
  else sym_cover("rejected");
}
// global phases add up modulo a full turn
HARNESS(buildPhase) {
  const unsigned big = pin("size", 0, 2);
  QuantumComputation q(1, 0, 1);
  double sum = 0;
  if (big == 2) { // too large to have a meaningful remainder: must end, in range
    static const double v[] = {1e17, -1e17, 1e300, -1e300, 1e-18, -1e-18, -1e-300};
    q.gphase(v[pin("phase", 0, 6)]);
    sym_assert(q.getGlobalPhase() >= 0 && q.getGlobalPhase() < 2 * PI, "the global phase lies outside [0,2pi)");
    sym_cover("extreme");
    return;
  }
  sym_real_mode(); sym_split_ints();
  const double a = sym_real("a", -20, 20);
  q.gphase(a); sum = a;
  if (big == 1) { const double b = sym_real("b", -7, 7); q.gphase(b); sum += b; }
  const double g = q.getGlobalPhase();
  sym_assert(s_and(g >= 0, g < 2 * PI), "the global phase lies outside [0,2pi)");
  bool some = false;
  for (int k = -6; k <= 6; ++k) { const double d = sum - g - k * 2 * PI; some = s_or(some, s_and(d < 1e-9, d > -1e-9)); }
  sym_assert(some, "the global phase differs from the sum of the phases by no multiple of 2pi");
  sym_cover("phase");
}
// names of operation types can be read back
HARNESS(buildNames) {
  static const OpType all[] = {None, GPhase, I, Barrier, H, X, Y, Z, S, Sdg, T, Tdg, V, Vdg, U, U2, P, SX, SXdg, RX, RY, RZ, SWAP, iSWAP, iSWAPdg, Peres, Peresdg, DCX, ECR, RXX, RYY, RZZ, RZX, XXminusYY, XXplusYY, Compound, Measure, Reset, ClassicControlled, Move, AodActivate, AodDeactivate, AodMove};
  const unsigned n = sizeof(all) / sizeof(all[0]);
  const OpType a = all[pin("first", 0, n - 1)], b = all[pin("second", 0, n - 1)];
  sym_assert((toString(a) == toString(b)) == (a == b), "two types have the same name");
  sym_assert((a == b) == (a <= b && b <= a), "types");
  sym_assert(opTypeFromString(toString(a)) == a, "the name of a type is read as another type");
  std::stringstream ss(toString(a)); OpType r{}; ss >> r;
  sym_assert(r == a, "a type is not read from its name in a stream");
  std::ostringstream os; os << a; sym_assert(os.str() == toString(a), "a type is not written as its name");
  sym_assert(!shortName(a).empty(), "short name");
  if (isTwoQubitGate(a)) sym_assert(isTwo(a) && !isSingleQubitGate(a), "isTwoQubitGate of a gate on one qubit");
  else sym_assert(!isTwo(a), "isTwoQubitGate of a gate on two qubits");
  bool one = false; for (auto x : kOne) one |= x == a;
  sym_assert(isSingleQubitGate(a) == one, "isSingleQubitGate");
  bool threw = false;
  try { opTypeFromString(toString(a) + "?"); } catch (const std::invalid_argument &) { threw = true; }
  sym_assert(threw, "an unknown name is read as a type");
  sym_cover("names");
}
// after removing a qubit the remaining ones, and only they, can be used
HARNESS(buildRemoved) {
  const unsigned n = 3;
  QuantumComputation q(n, 1, 1);
  std::set<Qubit> left{0, 1, 2};
  const unsigned r = pin("removed", 0, 2);
  q.removeQubit(r); left.erase(r);
  if (pinB("two")) { const unsigned k = pin("second", 0, 1); auto it = left.begin(); std::advance(it, k); const Qubit s = *it; q.removeQubit(s); left.erase(s); }
  const Qubit t = pin("target", 0, 3);
  const unsigned k = pin("method", 0, 4);
  bool threw = false;
  const bool ok = k == 4 || left.count(t) == 1;
  try {
    if (k == 0) q.h(t); else if (k == 1) q.measure(t, 0); else if (k == 2) q.reset(t); else if (k == 3) q.barrier(t); else q.barrier();
  } catch (const std::out_of_range &) { threw = true; }
  sym_assert(threw == !ok, "exactly the remaining qubits can be used after a qubit has been removed");
  if (k == 4) { const auto u = q.back()->getTargets(); sym_assert(std::set<Qubit>(u.begin(), u.end()) == left && u.size() == left.size(), "a barrier on all qubits does not act on exactly the remaining qubits"); }
  else if (ok) sym_assert(q.back()->getTargets() == Targets{t}, "targets after removing a qubit");
  sym_cover(threw ? "rejected" : "used");
}
// ---------------------------------------------------------------- shuttling
struct Aod { OpType t; std::vector<Qubit> q; std::vector<na::Dimension> d; std::vector<double> s, e; };
static const double kPos[] = {0., 1., -1234567.125, 0.123456789012345, 2.5, -3.};
static Aod anyAod(unsigned maxOps, unsigned positions) {
  static const OpType ty[] = {AodActivate, AodDeactivate, AodMove};
  Aod a; a.t = ty[pin("type", 0, 2)];
  a.q = {pinQ("qubit", 2)}; if (pinB("two")) a.q.push_back(1 - a.q[0]);
  const unsigned n = pin("moves", 0, maxOps);
  for (unsigned i = 0; i < n; ++i) { a.d.push_back(pinB("dim") ? na::Dimension::Y : na::Dimension::X); a.s.push_back(kPos[pin("start", 0, positions)]); a.e.push_back(kPos[pin("end", 0, positions)]); }
  return a;
}
static na::AodOperation mkAod(const Aod &a, unsigned how = 0) {
  std::vector<std::uint32_t> du; for (auto x : a.d) du.push_back(x == na::Dimension::Y ? 1 : 0);
  std::vector<na::SingleOperation> so; std::vector<std::tuple<na::Dimension, fp, fp>> tu;
  for (size_t i = 0; i < a.d.size(); ++i) { so.emplace_back(a.d[i], a.s[i], a.e[i]); tu.emplace_back(a.d[i], a.s[i], a.e[i]); }
  switch (how) {
  case 0: return {a.t, a.q, a.d, a.s, a.e};
  case 1: return {a.t, a.q, du, a.s, a.e};
  case 2: return {a.t == AodMove ? "aod_move" : a.t == AodActivate ? "aod_activate" : "aod_deactivate", a.q, du, a.s, a.e};
  case 3: return {a.t, a.q, tu};
  default: return {a.t, a.q, so};
  }
}
static void chkAod(const na::AodOperation &o, const Aod &a) {
  sym_assert(o.getType() == a.t && o.getTargets() == Targets(a.q.begin(), a.q.end()) && o.getControls().empty(), "type or qubits of a shuttling operation");
  sym_assert(o.getName() == toString(a.t), "the name of a shuttling operation does not fit its type");
  for (unsigned d = 0; d < 2; ++d) {
    const auto dim = d ? na::Dimension::Y : na::Dimension::X;
    std::vector<double> s, e, l; double mx = 0;
    for (size_t i = 0; i < a.d.size(); ++i) if (a.d[i] == dim) { s.push_back(a.s[i]); e.push_back(a.e[i]); l.push_back(std::fabs(a.e[i] - a.s[i])); mx = std::max(mx, l.back()); }
    sym_assert(o.getStarts(dim) == s && o.getEnds(dim) == e, "start or end positions of a shuttling operation");
    sym_assert(o.getDistances(dim) == l && o.getMaxDistance(dim) == mx, "distances of a shuttling operation");
  }
}
HARNESS(aodInvert) {
  const Aod a = anyAod(sym_tier() ? 3 : 2, 1);
  auto o = mkAod(a, pin("how", 0, 4));
  chkAod(o, a);
  auto c = o.clone();
  o.invert();
  Aod b = a;
  if (a.t == AodMove) std::swap(b.s, b.e);
  else b.t = a.t == AodActivate ? AodDeactivate : AodActivate;
  chkAod(o, b);
  chkAod(dynamic_cast<na::AodOperation &>(*c), a);
  sym_assert(c->isInverseOf(o) && o.isInverseOf(*c), "an inverted shuttling operation is not the inverse");
  o.invert();
  chkAod(o, a);
  sym_assert(static_cast<const Operation &>(o).equals(*c), "inverting a shuttling operation twice does not give it back");
  o.addControl(Control{1}); o.clearControls();
  chkAod(o, a);
  sym_cover("aod");
}
HARNESS(aodEqual) {
  const Aod a = anyAod(1 + sym_tier(), 1), b = anyAod(1 + sym_tier(), 1);
  const auto x = mkAod(a), y = mkAod(b);
  const Operation &ox = x, &oy = y;
  const bool same = a.t == b.t && a.q == b.q && a.d == b.d && a.s == b.s && a.e == b.e;
  const bool eq = ox == oy;
  sym_assert(eq == (oy == ox) && (ox != oy) == !eq, "equality of shuttling operations is not symmetric");
  if (eq) { sym_assert(same, "different shuttling operations are equal"); sym_assert(std::hash<Operation>{}(ox) == std::hash<Operation>{}(oy), "equal shuttling operations have different hashes"); sym_cover("equal"); }
  if (same) sym_assert(eq, "the same shuttling operation is not equal to itself");
  const StandardOperation s(0, X);
  sym_assert(!(ox == static_cast<const Operation &>(s)) && !(static_cast<const Operation &>(s) == ox), "a gate equals a shuttling operation");
}
HARNESS(aodWrite) {
  const Aod a = anyAod(2, sym_tier() ? 5 : 2);
  const auto o = mkAod(a);
  QuantumRegister reg(0, 2, "q");
  QubitIndexToRegisterMap m; m.try_emplace(0, reg, reg.toString(0)); m.try_emplace(1, reg, reg.toString(1));
  std::stringstream ss;
  const bool before = pinB("before");
  if (before) ss << "x q[0];\n";
  o.dumpOpenQASM(ss, m, {}, 0, pinB("qasm3"));
  ss << "y q[0];\n";
  std::string line;
  if (before) { std::getline(ss, line); sym_assert(line == "x q[0];", "writing a shuttling operation changed the text before it"); }
  std::getline(ss, line);
  // name (dim, start, end; ...;) qubit, qubit;
  std::string rest = line;
  const auto lp = rest.find('('), rp = rest.find(')');
  sym_assert(lp != std::string::npos && rp != std::string::npos && rest.compare(0, lp, toString(a.t) + " ") == 0, "a shuttling operation is written with another name");
  std::stringstream body(rest.substr(lp + 1, rp - lp - 1));
  for (size_t i = 0; i < a.d.size(); ++i) {
    unsigned d = 9; double s = -99, e = -99; char c1 = 0, c2 = 0, c3 = 0;
    body >> d >> c1 >> s >> c2 >> e >> c3;
    sym_assert(c1 == ',' && c2 == ',' && c3 == ';' && d == (a.d[i] == na::Dimension::Y ? 1U : 0U), "a movement is written in another form");
    sym_assert(std::fabs(s - a.s[i]) <= 1e-14 * std::fabs(a.s[i]) && std::fabs(e - a.e[i]) <= 1e-14 * std::fabs(a.e[i]), "a written position differs from the position");
  }
  std::string more; body >> more; sym_assert(more.empty(), "more movements are written than there are");
  std::string want; for (size_t i = 0; i < a.q.size(); ++i) want += (i ? ", q[" : " q[") + std::to_string(a.q[i]) + "]";
  sym_assert(rest.substr(rp + 1) == want + ";", "the qubits of a shuttling operation are written differently");
  std::getline(ss, line);
  sym_assert(line == "y q[0];", "text after a shuttling operation is lost");
  sym_cover("written");
}
