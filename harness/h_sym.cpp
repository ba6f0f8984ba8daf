// Symbolic expressions and symbolic operations.
#include "sem.h"
#include "ir/operations/Expression.hpp"
#include <set>
using namespace qc;
using sym::Variable; using sym::Term;
using Ex = Symbolic;
static Variable Vr(unsigned i) { static const char *n[] = {"y", "x", "z"}; return Variable(n[i]); }
static double coef(const char *n) { // coefficients are 0 or not tiny
  const double c = sym_real(n, -4, 4);
  sym_assume(s_or(c == 0, s_or(c > 1e-3, -c > 1e-3)));
  return c;
}
struct Lin { double c[3] = {0, 0, 0}, k = 0; double at(const double *v) const { return c[0] * v[0] + c[1] * v[1] + c[2] * v[2] + k; } };
static Ex mk(const char *which, Lin &l) {
  const unsigned f = pin(which, 0, 6);
  const double a = coef("a"), b = coef("b"), k = sym_real("k", -4, 4);
  switch (f) {
  case 0: l.k = k; return Ex(k);
  case 1: l.c[0] = a; return Ex(Term<fp>(Vr(0), a));
  case 2: l.c[1] = a; l.k = k; { Ex e(Term<fp>(Vr(1), a)); e.setConst(k); return e; }
  case 3: l.c[0] = a; l.c[1] = b; return Ex(Term<fp>(Vr(1), b), Term<fp>(Vr(0), a));
  case 4: sym_assume(s_or(a + b == 0, s_or(a + b > 1e-3, -a - b > 1e-3))); l.c[1] = a + b; return Ex(Term<fp>(Vr(1), b), Term<fp>(Vr(1), a));
  case 5: l.c[0] = a; l.c[1] = b; l.k = k; return Ex(std::vector<Term<fp>>{Term<fp>(Vr(1), b), Term<fp>(Vr(0), a)}, k);
  default: l.c[2] = a; l.c[0] = 1; l.k = k; { Ex e(Vr(2), Vr(0)); e *= 1.0; Ex r(Term<fp>(Vr(0), 1), Term<fp>(Vr(2), a)); r.setConst(k); return r; }
  }
}
static void check(const Ex &e, const Lin &l, const char *msg) {
  const double v[3] = {sym_real("vy", -4, 4), sym_real("vx", -4, 4), sym_real("vz", -4, 4)};
  VariableAssignment as{{Vr(0), v[0]}, {Vr(1), v[1]}, {Vr(2), v[2]}};
  sym_assert_near(e.evaluate(as), l.at(v), 1e-7, msg);
  std::set<std::string> seen;
  for (const auto &t : e) { sym_assert(seen.insert(t.getVar().getName()).second, "a variable occurs in two terms"); sym_assert(!t.hasZeroCoeff(), "a term has a zero coefficient"); }
  sym_assert(e.getVariables().size() == seen.size() && e.numTerms() == seen.size(), "the variables of an expression are wrong");
  sym_assert(e.isConstant() == seen.empty(), "an expression is reported as constant incorrectly");
}
HARNESS(exprArith) {
  sym_real_mode();
  Lin l1, l2, r;
  Ex e1 = mk("e1", l1);
  const unsigned op = pin("op", 0, 20);
  const double s = sym_real("s", -4, 4), u = sym_real("u", -4, 4);
  const Term<fp> t(Vr(1), u);
  auto lc = [&](double x, const Lin &p, double y, const Lin &q) { Lin z; for (int i = 0; i < 3; ++i) z.c[i] = x * p.c[i] + y * q.c[i]; z.k = x * p.k + y * q.k; return z; };
  Lin lt; lt.c[1] = u; Lin lk; lk.k = u;
  if (op >= 6 && op <= 9) sym_assume(s_or(u > 1e-3, -u > 1e-3));
  switch (op) {
  case 0: { Ex e2 = mk("e2", l2); check(e1 + e2, lc(1, l1, 1, l2), "sum of expressions"); break; }
  case 1: { Ex e2 = mk("e2", l2); check(e1 - e2, lc(1, l1, -1, l2), "difference of expressions"); break; }
  case 2: { Ex e2 = mk("e2", l2); Ex q = e1; q += e2; check(q, lc(1, l1, 1, l2), "sum of expressions"); break; }
  case 3: { Ex e2 = mk("e2", l2); Ex q = e1; q -= e2; check(q, lc(1, l1, -1, l2), "difference of expressions"); break; }
  case 4: check(-e1, lc(-1, l1, 0, l1), "negated expression"); break;
  case 5: { Ex q = e1; q += q; check(q, lc(2, l1, 0, l1), "doubled expression"); break; }
  case 6: check(e1 + t, lc(1, l1, 1, lt), "expression plus term"); break;
  case 7: check(t + e1, lc(1, l1, 1, lt), "term plus expression"); break;
  case 8: check(e1 - t, lc(1, l1, -1, lt), "expression minus term"); break;
  case 9: check(t - e1, lc(-1, l1, 1, lt), "term minus expression"); break;
  case 10: check(e1 + u, lc(1, l1, 1, lk), "expression plus constant"); break;
  case 11: check(e1 - u, lc(1, l1, -1, lk), "expression minus constant"); break;
  case 12: check(u - e1, lc(-1, l1, 1, lk), "constant minus expression"); break;
  case 13: check(e1 * s, lc(s_or(s > 1e-3, -s > 1e-3) ? s : (sym_assume(s == 0), 0.), l1, 0, l1), "scaled expression"); break;
  case 14: check(s * e1, lc(s_or(s > 1e-3, -s > 1e-3) ? s : (sym_assume(s == 0), 0.), l1, 0, l1), "scaled expression"); break;
  case 15: { sym_assume(s_or(s > 0.1, -s > 0.1)); Ex q = e1 / s; const double v = 0.5; VariableAssignment as{{Vr(0), v}, {Vr(1), v}, {Vr(2), v}}; const double w[3] = {v, v, v}; sym_assert_near(q.evaluate(as) * s, l1.at(w), 1e-7, "divided expression"); break; }
  case 16: { const std::int64_t d = (std::int64_t)pin("d", 1, 5) - 6; check(e1 / d, lc(1. / (double)d, l1, 0, l1), "expression divided by an integer"); break; }
  case 17: { const Ex c = e1.convert<fp>(); check(c, l1, "converted expression"); break; }
  case 18: { Ex q = e1; q += t; q -= t; sym_assume(s_or(u > 1e-3, -u > 1e-3)); check(q, l1, "added and subtracted term"); break; }
  case 19: { Ex q; q += e1; check(q, l1, "empty expression plus expression"); break; }
  default: check(e1, l1, "constructed expression"); break;
  }
  sym_cover("arith");
}
HARNESS(exprEq) { // equal expressions have equal values; addition commutes
  sym_real_mode();
  Lin l1, l2;
  const Ex e1 = mk("e1", l1), e2 = mk("e2", l2);
  sym_assert((e1 == e2) == (e2 == e1), "equality of expressions is not symmetric");
  sym_assert((e1 != e2) == !(e1 == e2), "inequality of expressions is not the negation of equality");
  const double v[3] = {sym_real("vy", -4, 4), sym_real("vx", -4, 4), sym_real("vz", -4, 4)};
  if (e1 == e2) { sym_assert_near(l1.at(v), l2.at(v), 1e-7, "equal expressions with different values"); sym_cover("equal"); }
  else { sym_assert(s_or(l1.k - l2.k > 1e-10, s_or(l2.k - l1.k > 1e-10, s_or(s_or(l1.c[0] - l2.c[0] > 1e-10, l2.c[0] - l1.c[0] > 1e-10), s_or(s_or(l1.c[1] - l2.c[1] > 1e-10, l2.c[1] - l1.c[1] > 1e-10), s_or(l1.c[2] - l2.c[2] > 1e-10, l2.c[2] - l1.c[2] > 1e-10))))) || s_or(l1.k > l2.k, l1.k < l2.k), "expressions with the same terms are not equal"); sym_cover("unequal"); }
}
HARNESS(exprPartial) { // evaluation needs exactly the variables that occur
  Lin l;
  sym_real_mode();
  const Ex e = mk("e1", l);
  const unsigned have = pin("have", 0, 7);
  VariableAssignment as;
  for (unsigned i = 0; i < 3; ++i) if (have >> i & 1) as[Vr(i)] = 0.5;
  bool need = false;
  for (const auto &v : e.getVariables()) if (as.count(v) == 0) need = true;
  bool threw = false;
  double r = 0;
  try { r = e.evaluate(as); } catch (const sym::SymbolicException &) { threw = true; }
  sym_assert(threw == need, "evaluation is possible exactly if every variable has a value");
  sym_cover(threw ? "missing" : "value");
}
// ------------------------------------------------------------------ operations
static const OpType kPar[] = {P, RX, RY, RZ, U2, U, RXX, RYY, RZZ, RZX, XXminusYY, XXplusYY, GPhase};
static const double kVal[] = {0.3, PI_2, 0., PI, -1.2};
struct SP { std::vector<SymbolOrNumber> p; std::vector<double> v; bool any = false; std::set<std::string> vars; };
static const double kX = 0.7, kY = PI_2;
// parameters: numbers from the list or expressions in x and y, with their values at x=kX, y=kY
static SP symParams(int n, double x = kX, double y = kY, bool few = false, bool one = false) {
  SP r;
  for (int i = 0; i < n; ++i) {
    const unsigned k = one && i ? 3 : pin("param", 0, few ? 3 : 7);
    switch (k) {
    case 0: r.p.emplace_back(Ex(Variable("x"))); r.v.push_back(x); r.any = true; r.vars.insert("x"); break;
    case 1: r.p.emplace_back(Ex(Variable("y"))); r.v.push_back(y); r.any = true; r.vars.insert("y"); break;
    case 2: { Ex e(Term<fp>(Variable("x"), 2.), Term<fp>(Variable("y"), -1.)); e.setConst(0.25); r.p.emplace_back(e); r.v.push_back(2 * x - y + 0.25); r.any = true; r.vars.insert("x"); r.vars.insert("y"); break; }
    default: r.p.emplace_back(kVal[k - 3]); r.v.push_back(kVal[k - 3]); break;
    }
  }
  return r;
}
static const VariableAssignment &asg() { static const VariableAssignment a{{Variable("x"), kX}, {Variable("y"), kY}}; return a; }
static void refCols(std::vector<SV> &u, OpType t, const std::vector<double> &v, const Controls &c, const std::vector<Qubit> &tg) {
  unsigned m, val; ctrlMask(c, m, val);
  for (auto &s : u) {
    if (t == GPhase) { const Cx e = cis(v.at(0)); for (unsigned i = 0; i < s.size(); ++i) if ((i & m) == val) s[i] = s[i] * e; }
    else { std::vector<unsigned> q(tg.begin(), tg.end()); applyMat(s, refGate(t, v), q, m, val); }
  }
}
static std::vector<SV> idCols(unsigned n) { std::vector<SV> u; for (unsigned x = 0; x < (1U << n); ++x) u.push_back(basis(n, x)); return u; }
static SymbolicOperation mkSym(const GateCfg &g, const SP &p) {
  if (g.t == GPhase) return SymbolicOperation(g.c, Targets{}, g.t, p.p);
  return SymbolicOperation(g.c, Targets(g.tg.begin(), g.tg.end()), g.t, p.p);
}
static GateCfg symGate(unsigned nq, unsigned maxc) {
  GateCfg g; g.t = pick("type", kPar);
  if (g.t == GPhase) { const unsigned k = pin("ctrl", 0, 2); if (k) g.c.emplace(Control{0, k == 1 ? Control::Type::Pos : Control::Type::Neg}); }
  else pickQubits(g, nq, isTwo(g.t) ? 2 : 1, maxc, 2);
  return g;
}
HARNESS(symInst) {
  const GateCfg g = symGate(2, 1);
  const SP p = symParams(numParams(g.t));
  SymbolicOperation op = mkSym(g, p);
  sym_assert(op.isSymbolicOperation() == p.any, "an operation with a symbolic parameter is symbolic");
  sym_assert(op.isStandardOperation() == !p.any, "an operation without symbolic parameters is a standard operation");
  sym_assert(op.getName() == toString(op.getType()), "name of a symbolic operation");
  sym_assert((int)op.getParameters().size() == numParams(op.getType()), "a symbolic operation has the wrong number of parameters");
  auto ref = idCols(2);
  refCols(ref, g.t, p.v, g.c, g.tg);
  const bool inv = pinB("invert");
  if (inv) op.invert();
  auto fin = [&](const Operation &o, const char *msg) {
    auto u = unitary(o, 2);
    if (inv) { for (size_t i = 0; i < ref.size(); ++i) { SV s = ref[i]; applyOpSV(s, o); assertSameSV(s, basis(2, (unsigned)i), msg); } }
    else assertSameU(u, ref, msg);
  };
  const auto before = op;
  fin(op.getInstantiatedOperation(asg()), "the instantiated operation is another gate");
  auto cl = op.clone();
  sym_assert(cl->equals(op) && op.equals(*cl), "a clone of a symbolic operation is not equal");
  op.instantiate(asg());
  sym_assert(!op.isSymbolicOperation(), "an instantiated operation is still symbolic");
  sym_assert(op.getName() == toString(op.getType()), "name of an instantiated operation");
  fin(op, "an operation instantiated in place is another gate");
  auto &cs = dynamic_cast<SymbolicOperation &>(*cl);
  sym_assert(cs.isSymbolicOperation() == p.any, "instantiating an operation changed its clone");
  sym_cover(p.any ? "symbolic" : "numeric");
}
// equality of symbolic operations is sound and reflexive
HARNESS(symEq) {
  static const OpType ty[] = {P, RX, U2, RZX, U};
  GateCfg a, b;
  a.t = ty[pin("type1", 0, 3)];
  b.t = ty[pin("type2", 0, sym_tier() ? 4 : 3)];
  pickQubits(a, 2, isTwo(a.t) ? 2 : 1, 1, 2); pickQubits(b, 2, isTwo(b.t) ? 2 : 1, 1, 2);
  const SP p = symParams(numParams(a.t), kX, kY, true);
  SP q;
  const double v2[3] = {0.3, 0.7, 0.9};
  const unsigned k = pin("second", 0, 3);
  for (int i = 0; i < numParams(b.t); ++i) {
    if (k == 0 && i < (int)p.p.size()) { q.p.push_back(p.p[i]); q.v.push_back(p.v[i]); }
    else if (k == 1) { q.p.emplace_back(Ex(Variable("y"))); q.v.push_back(kY); }
    else if (k == 2 && i > 0) { q.p.emplace_back(Ex(Variable("x"))); q.v.push_back(kX); }
    else { q.p.emplace_back(v2[i]); q.v.push_back(v2[i]); }
  }
  const SymbolicOperation o1 = mkSym(a, p), o2 = mkSym(b, q);
  const bool eq = o1.equals(o2);
  sym_assert(eq == o2.equals(o1), "equality of symbolic operations is not symmetric");
  const StandardOperation s(b.c, Targets(b.tg.begin(), b.tg.end()), b.t, q.v);
  const bool eqs = o1.equals(s), eqs2 = static_cast<const Operation &>(s).equals(o1);
  sym_assert(eqs == eqs2, "equality of a symbolic and a standard operation is not symmetric");
  if (eqs) sym_assert(o1.isStandardOperation(), "a symbolic operation equals a standard one");
  if (a.t == b.t && a.c == b.c && a.tg == b.tg && k == 0) sym_assert(eq, "the same symbolic operation is not equal to itself");
  for (int round = 0; round < 2; ++round) if (eq) {
    const VariableAssignment as{{Variable("x"), round ? 0.4 : kX}, {Variable("y"), round ? 1.9 : kY}};
    assertSameU(unitary(o1.getInstantiatedOperation(as), 2), unitary(o2.getInstantiatedOperation(as), 2), "equal symbolic operations are different gates");
    sym_cover("equal");
  }
}
// circuits: variables, instantiation in nested operations
HARNESS(symCirc) {
  QuantumComputation c(2, 1);
  std::set<std::string> vars;
  auto ref = idCols(2);
  const unsigned n = 2;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned k = pin("kind", 0, 4);
    if (k == 0) { c.h(0); refCols(ref, H, {}, {}, {0}); continue; }
    GateCfg g;
    g.t = std::vector<OpType>{RX, U, RZZ}[pin("type", 0, 2)];
    g.tg = isTwo(g.t) ? std::vector<Qubit>{1, 0} : std::vector<Qubit>{(Qubit)(i & 1)};
    SP p = symParams(g.t == U ? 1 : numParams(g.t), kX, kY, true);
    if (g.t == U) { p.p.emplace_back(0.2); p.v.push_back(0.2); p.p.emplace_back(Ex(Variable("y"))); p.v.push_back(kY); p.vars.insert("y"); p.any = true; }
    auto op = std::make_unique<SymbolicOperation>(mkSym(g, p));
    refCols(ref, g.t, p.v, g.c, g.tg);
    if (k == 1) { // through the builder
      if (g.t == RX) c.rx(p.p[0], g.tg[0]);
      else if (g.t == RZZ) c.rzz(p.p[0], g.tg[0], g.tg[1]);
      else c.u(p.p[0], p.p[1], p.p[2], g.tg[0]);
    } else if (k == 2) { auto co = std::make_unique<CompoundOperation>(); co->emplace_back(std::move(op)); c.emplace_back(std::move(co)); }
    else if (k == 3) { auto in = std::make_unique<CompoundOperation>(); in->emplace_back(std::move(op)); auto co = std::make_unique<CompoundOperation>(); co->emplace_back(std::move(in)); c.emplace_back(std::move(co)); }
    else c.emplace_back<ClassicControlledOperation>(std::move(op), (Bit)0, 0);
    for (auto &v : p.vars) vars.insert(v);
  }
  sym_assert(c.isVariableFree() == vars.empty(), "a circuit is variable-free exactly if no parameter is symbolic");
  const auto d = c.instantiate(asg());
  sym_assert(d.isVariableFree(), "an instantiated circuit is not variable-free");
  sym_assert(d.getVariables().empty(), "an instantiated circuit has variables");
  sym_assert(c.isVariableFree() == vars.empty(), "instantiating a copy changed the circuit");
  for (unsigned x = 0; x < 4; ++x) { Ens e{Branch{0, basis(2, x)}}; applyCirc(e, d); sym_assert(e.size() == 1, "not unitary"); assertSameSV(e[0].v, ref[x], "an instantiated circuit is another circuit"); }
  auto f = c; f.invert();
  const auto g = f.instantiate(asg());
  for (unsigned x = 0; x < 4; ++x) { Ens e{Branch{0, ref[x]}}; applyCirc(e, g); sym_assert(e.size() == 1, "not unitary"); assertSameSV(e[0].v, basis(2, x), "inverting a symbolic circuit does not invert it"); }
  sym_cover(vars.empty() ? "numeric" : "symbolic");
}
// variables collected while building a circuit
HARNESS(symVars) {
  QuantumComputation c(2);
  std::set<std::string> vars;
  for (unsigned i = 0; i < 2; ++i) {
    const unsigned t = pin("gate", 0, 4);
    SP p = symParams(t == 0 ? 1 : t == 1 ? 2 : t == 2 ? 3 : t == 3 ? 1 : 2, kX, kY, true, i == 1 && sym_tier() == 0);
    switch (t) {
    case 0: c.mcp(p.p[0], {1}, 0); break;
    case 1: c.u2(p.p[0], p.p[1], 0); break;
    case 2: c.cu(p.p[0], p.p[1], p.p[2], 1, 0); break;
    case 3: c.rxx(p.p[0], 0, 1); break;
    default: c.xx_plus_yy(p.p[0], p.p[1], 1, 0); break;
    }
    for (auto &v : p.vars) vars.insert(v);
  }
  std::set<std::string> got;
  for (auto &v : c.getVariables()) got.insert(v.getName());
  sym_assert(got == vars, "the variables of a circuit are not those of its operations");
  const unsigned part = pin("assign", 0, 2);
  if (vars.empty()) return;
  VariableAssignment as;
  if (part != 1) as[Variable("x")] = 0.5;
  if (part != 0) as[Variable("y")] = 0.25;
  bool all = true;
  for (auto &v : vars) if (as.count(Variable(v)) == 0) all = false;
  bool threw = false;
  QuantumComputation d;
  try { d = c.instantiate(as); } catch (const std::exception &) { threw = true; }
  sym_assert(threw == !all, "a circuit can be instantiated exactly if every variable has a value");
  if (!threw) sym_assert(d.getVariables().empty() && d.isVariableFree(), "an instantiated circuit has variables");
  sym_cover(threw ? "partial" : "total");
}
