// Gate-level semantics: canonicalisation of U gates, inversion, gate matrices.
#include "ref.h"
#include "dd/GateMatrixDefinitions.hpp"
#include "ir/operations/StandardOperation.hpp"
using namespace qc;
static std::vector<double> params(OpType t) {
  std::vector<double> p;
  const char *n[] = {"p0", "p1", "p2"};
  for (int i = 0; i < numParams(t); ++i) {
    double x = sym_real(n[i], -8.0, 8.0);
    // tiny non-zero angles: pi/x has no fractional digits left in a double
    sym_assume(s_or(s_and(x < 1e-13, -x < 1e-13), s_or(x > 1e-4, -x > 1e-4)));
    p.push_back(x);
  }
  return p;
}
static Mat opMat(const StandardOperation &op) {
  std::vector<double> p(op.getParameter().begin(), op.getParameter().end());
  Mat m = refGate(op.getType(), p);
  if (m.n == 4 && op.getTargets().at(0) > op.getTargets().at(1)) m = swapIdx(m);
  return m;
}
struct Ang { double t, p, l; };
static Ang uForm(OpType t, const std::vector<double> &p) {
  switch (t) {
  case I: return {0, 0, 0};
  case P: return {0, 0, p.at(0)};
  case Z: return {0, 0, PI};
  case S: return {0, 0, PI_2};
  case Sdg: return {0, 0, -PI_2};
  case T: return {0, 0, PI_4};
  case Tdg: return {0, 0, -PI_4};
  case U2: return {PI_2, p.at(0), p.at(1)};
  case H: return {PI_2, 0, PI};
  case RY: return {p.at(0), 0, 0};
  case RX: return {p.at(0), -PI_2, PI_2};
  case V: return {PI_2, -PI_2, PI_2};
  case Vdg: return {-PI_2, -PI_2, PI_2};
  case X: return {PI, 0, PI};
  case Y: return {PI, PI_2, PI_2};
  case U: return {p.at(0), p.at(1), p.at(2)};
  default: sym_assert(false, "canonical form of an unexpected type"); return {};
  }
}
static bool mod2pi(double x, int step, double tol = 1e-11) { // x = 0 mod step*pi
  bool r = false;
  for (int k = -14 / step; k <= 14 / step; ++k) { double d = x - k * step * PI; r = s_or(r, s_and(d <= tol, -d <= tol)); }
  return r;
}
// U(a) and U(b) are the same matrix iff one of these holds
static bool sameU(Ang a, Ang b) {
  bool A = s_and(mod2pi(a.t - b.t, 4), s_and(mod2pi(a.p - b.p, 2), mod2pi(a.l - b.l, 2)));
  bool B = s_and(mod2pi(a.t + b.t, 4), s_and(mod2pi(a.p - b.p - PI, 2), mod2pi(a.l - b.l - PI, 2)));
  bool D = s_and(s_and(mod2pi(a.t, 4), mod2pi(b.t, 4)), mod2pi(a.p + a.l - b.p - b.l, 2));
  return s_or(A, s_or(B, D));
}
// parseU*/checkInteger/checkFractionPi may only change the gate within the tolerance
static void canonT(OpType t) {
  sym_real_mode();
  auto p = params(t);
  StandardOperation op(0, t, p);
  sym_cover(toString(op.getType()).c_str());
  std::vector<double> q(op.getParameter().begin(), op.getParameter().end());
  sym_assert((int)q.size() == numParams(op.getType()), "number of parameters does not fit the type");
  sym_assert(sameU(uForm(op.getType(), q), uForm(t, p)), "canonicalised gate differs from the gate asked for");
}
HARNESS(canonP) { canonT(P); }
HARNESS(canonU2) { canonT(U2); }
HARNESS(canonU) { canonT(U); }
HARNESS(inv1) {
  sym_real_mode();
  OpType t = pick("type", kOne);
  auto p = params(t);
  StandardOperation op(0, t, p);
  Mat before = opMat(op);
  op.invert();
  assertSame(mm(opMat(op), before), ident(2), 1e-9, "inverse times gate is not the identity");
  sym_cover("inv1");
}
HARNESS(inv2) {
  sym_real_mode();
  OpType t = pick("type", kTwo);
  auto p = params(t);
  bool sw = sym_bool("swapTargets");
  StandardOperation op(Controls{}, sw ? 1 : 0, sw ? 0 : 1, t, p);
  Mat before = opMat(op);
  op.invert();
  assertSame(mm(opMat(op), before), ident(4), 1e-9, "inverse times gate is not the identity");
  sym_cover("inv2");
}
HARNESS(mat1) {
  sym_real_mode();
  OpType t = pick("type", kOne);
  auto p = params(t);
  auto m = dd::opToSingleQubitGateMatrix(t, p);
  Mat r = refGate(t, p);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { auto c = m[2 * i + j]; sym_assert_near(c.real(), r.a[i][j].re, 1e-12, "matrix entry (re)"); sym_assert_near(c.imag(), r.a[i][j].im, 1e-12, "matrix entry (im)"); }
  sym_cover("mat1");
}
HARNESS(mat2) {
  sym_real_mode();
  OpType t = pick("type", kTwo);
  auto p = params(t);
  auto m = dd::opToTwoQubitGateMatrix(t, p);
  Mat r = refGate(t, p);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { auto c = m[i][j]; sym_assert_near(c.real(), r.a[i][j].re, 1e-12, "matrix entry (re)"); sym_assert_near(c.imag(), r.a[i][j].im, 1e-12, "matrix entry (im)"); }
  sym_cover("mat2");
}
