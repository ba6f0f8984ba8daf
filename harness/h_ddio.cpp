// Writing decision diagrams and reading them back.
#include "ddgen.h"
#include "dd/Export.hpp"
#include <sstream>
HARNESS(ddSerialM) {
  const unsigned n = sym_tier() ? pin("n", 1, 4) : pin("n", 1, 3);
  const DM a = anyM(n);
  const bool bin = pinB("binary");
  dd::Package p(n, smallCfg()), q(n, smallCfg());
  auto e = p.makeDDFromMatrix(cmat(a));
  p.incRef(e);
  std::stringstream ss;
  dd::serialize(e, ss, bin);
  if (pinB("collect")) p.garbageCollect(true);
  std::istringstream i1(ss.str()), i2(ss.str());
  const auto same = p.deserialize<dd::mNode>(i1, bin), other = q.deserialize<dd::mNode>(i2, bin);
  sym_assert(nearM(dense(same, n), a) && nearM(dense(other, n), a), "a matrix read back is another one");
  sym_assert(same == e, "a matrix read back into the same package is another node");
  sym_cover(bin ? "binary" : "text");
}
HARNESS(ddSerialV) {
  const unsigned n = sym_tier() ? pin("n", 1, 4) : pin("n", 1, 3);
  const SV a = anyV(n);
  const bool bin = pinB("binary");
  dd::Package p(n, smallCfg()), q(n, smallCfg());
  auto e = p.makeStateFromVector(cvec(a));
  std::stringstream ss;
  dd::serialize(e, ss, bin);
  if (pinB("collect")) p.garbageCollect(true);
  std::istringstream i1(ss.str()), i2(ss.str());
  const auto same = p.deserialize<dd::vNode>(i1, bin), other = q.deserialize<dd::vNode>(i2, bin);
  sym_assert(nearSV(dense(same, n), a) && nearSV(dense(other, n), a), "a vector read back is another one");
  sym_assert(same == e, "a vector read back into the same package is another node");
  sym_cover(bin ? "binary" : "text");
}
HARNESS(ddSerialShape) { // vectors over a few amplitudes: all ways to share nodes
  const unsigned n = sym_tier() ? 4 : 3;
  SV a(1U << n);
  bool any = false;
  // blocks of four amplitudes out of a menu of sub-vectors
  static const double kSub[6][4] = {{0, 0, 0, 0}, {1, 0, 0, 0}, {1, 1, 1, 1}, {0, 0, 1, -1}, {1, 2, 1, 2}, {0, 1, 3, 0}};
  for (unsigned b = 0; b < a.size() / 4; ++b) {
    const unsigned k = pin("block", 0, 5), f = k ? pin("factor", 0, 2) : 0;
    any = any || k;
    const Cx fac = f == 0 ? Cx{0.25, 0} : f == 1 ? Cx{-0.125, 0} : Cx{0, 0.3e-4};
    for (unsigned i = 0; i < 4; ++i) a[4 * b + i] = Cx{kSub[k][i], 0} * fac;
  }
  sym_assume(any);
  const bool bin = pinB("binary");
  dd::Package p(n, smallCfg()), q(n, smallCfg());
  const auto e = p.makeStateFromVector(cvec(a));
  std::stringstream ss;
  dd::serialize(e, ss, bin);
  const auto other = q.deserialize<dd::vNode>(ss, bin);
  sym_assert(nearSV(dense(other, n), a, 1e-11), "a vector read back is another one");
  sym_cover("shape");
}
HARNESS(ddCircuitIO) { // diagrams of circuits
  const unsigned n = 3;
  qc::QuantumComputation c(n);
  const unsigned len = sym_tier() ? 4 : 3;
  for (unsigned i = 0; i < len; ++i) switch (pin("op", 0, 6)) {
    case 0: c.h(pinQ("q", n)); break;
    case 1: c.cx(0, 2); break;
    case 2: c.cx(1, 0); break;
    case 3: c.t(2); break;
    case 4: c.ry(0.3, 1); break;
    case 5: c.iswap(0, 1); break;
    default: c.cz(qc::Control{2, qc::Control::Type::Neg}, 1);
    }
  const bool bin = pinB("binary");
  dd::Package p(n, smallCfg()), q(n, smallCfg());
  const auto f = dd::buildFunctionality(c, p);
  const auto s = dd::simulate(c, p.makeZeroState(n), p);
  std::stringstream a, b;
  dd::serialize(f, a, bin); dd::serialize(s, b, bin);
  sym_assert(nearM(dense(q.deserialize<dd::mNode>(a, bin), n), dense(f, n)), "a matrix read back is another one");
  sym_assert(nearSV(dense(q.deserialize<dd::vNode>(b, bin), n), dense(s, n)), "a vector read back is another one");
  sym_cover("circuit");
}
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
HARNESS(ddArgs) { // arguments beyond the package are reported, and the package stays usable
  const unsigned k = pin("qubits", 0, 3), n = pin("needed", 0, 4);
  dd::Package p(k, smallCfg()), big(5, smallCfg());
  const bool over = n > k;
  bool t = false, want = over;
  switch (pin("what", 0, 13)) {
  case 0: t = throws([&] { (void)p.makeStateFromVector(cvec(normed(genericState(n)))); }); break;
  case 1: t = throws([&] { (void)p.makeDDFromMatrix(cmat(genericM(n, 1))); }); break;
  case 2: t = throws([&] { (void)p.makeZeroState(n); }); break;
  case 3: t = throws([&] { (void)p.makeBasisState(n, std::vector<bool>(n, true)); }); break;
  case 4: t = throws([&] { (void)p.makeBasisState(n, std::vector<dd::BasisStates>(n, dd::BasisStates::plus)); }); break;
  case 5: t = throws([&] { (void)p.makeGHZState(n); }); break;
  case 6: t = throws([&] { (void)p.makeWState(n); }); break;
  case 7: sym_assume(n > 0); t = throws([&] { (void)p.makeGateDD(dd::GateMatrix{0, 1, 1, 0}, n - 1); }); break;
  case 8: sym_assume(n > 1); t = throws([&] { (void)p.makeGateDD(dd::GateMatrix{0, 1, 1, 0}, qc::Control{n - 1}, 0); }); break;
  case 9: { sym_assume(n > 1); const bool f = pinB("first"); t = throws([&] { (void)p.makeTwoQubitGateDD(dd::opToTwoQubitGateMatrix(qc::SWAP), f ? n - 1 : 0, f ? 0 : n - 1); }); break; }
  case 10: t = throws([&] { (void)p.makeZeroDensityOperator(n); }); break;
  case 11: { // files
    std::stringstream ss;
    const bool bin = pinB("binary");
    if (pinB("matrix")) { const auto e = big.makeDDFromMatrix(cmat(genericM(n, 1))); dd::serialize(e, ss, bin); t = throws([&] { (void)p.deserialize<dd::mNode>(ss, bin); }); }
    else { const auto e = big.makeStateFromVector(cvec(normed(genericState(n)))); dd::serialize(e, ss, bin); t = throws([&] { (void)p.deserialize<dd::vNode>(ss, bin); }); }
    break;
  }
  case 12: { // shapes that are no vectors and no matrices
    dd::CVec v(n + 1, 0.5); dd::CMat m(n + 1, v);
    const bool pow = (n & (n + 1)) == 0;
    want = !pow || ((n + 1) > (1U << k));
    if (pinB("matrix")) { if (pow && n > 0 && pinB("ragged")) { m[n].pop_back(); want = true; } t = throws([&] { (void)p.makeDDFromMatrix(m); }); }
    else t = throws([&] { (void)p.makeStateFromVector(v); });
    break;
  }
  default: { // a state shifted upwards needs the values of all its qubits
    const unsigned st = pin("start", 0, 2), have = pin("given", 0, 4);
    want = n + st > k || have < n + st;
    if (pinB("named")) t = throws([&] { (void)p.makeBasisState(n, std::vector<dd::BasisStates>(have, dd::BasisStates::one), st); });
    else t = throws([&] { (void)p.makeBasisState(n, std::vector<bool>(have, true), st); });
  }
  }
  sym_assert(t == want, want ? "an argument beyond the package is accepted" : "a valid argument is rejected");
  if (k > 0) { const auto e = p.makeStateFromVector(cvec(normed(genericState(k)))); sym_assert(nearSV(dense(e, k), normed(genericState(k))), "the package is not usable any more"); }
  sym_cover(want ? "rejected" : "accepted");
}
