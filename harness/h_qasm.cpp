// OpenQASM import: totality, literals, constant expressions, gates, modifiers,
// broadcasting, gate definitions, conditions, measurements, layout comments.
#include "sem.h"
#include "qasm3/Importer.hpp"
#include "qasm3/Parser.hpp"
#include "qasm3/Scanner.hpp"
#include "qasm3/Statement.hpp"
#include "qasm3/Exception.hpp"
#include "qasm3/passes/ConstEvalPass.hpp"
#include <iostream>
#include <sstream>
#include <cstring>
#include <functional>
using namespace qc;
static std::unique_ptr<QuantumComputation> imp(const std::string &s) {
  std::cerr.rdbuf(nullptr);
  if (sym_is_replay()) printf("  program:\n%s\n", s.c_str());
  try { return std::make_unique<QuantumComputation>(qasm3::Importer::imports(s)); } catch (const std::exception &e) { if (sym_is_replay()) printf("  rejected: %s\n", e.what()); return nullptr; }
}
static const std::string V3 = "OPENQASM 3.0;\ninclude \"stdgates.inc\";\n";
static const std::string V2 = "OPENQASM 2.0;\ninclude \"qelib1.inc\";\n";
static std::string q(unsigned i) { return "q[" + std::to_string(i) + "]"; }
// ------------------------------------------------------------------ totality
// the scanner reaches the end of any byte string after a bounded number of tokens
static void scanN(unsigned n) {
  std::cerr.rdbuf(nullptr);
  std::string s;
  for (unsigned i = 0; i < n; ++i) s.push_back((char)sym_u8("byte"));
  std::istringstream is(s);
  qasm3::Scanner sc(&is);
  unsigned k = 0;
  try { for (; k < 2 * n + 4; ++k) if (sc.next().kind == qasm3::Token::Kind::Eof) break; } catch (const std::exception &) { sym_cover("rejected"); return; }
  sym_assert(k < 2 * n + 4, "the scanner does not reach the end of the input");
  sym_cover("eof");
}
HARNESS(scan2) { scanN(2); }
HARNESS(scan3) { scanN(sym_tier() ? 4 : 3); }
// any sequence of tokens in every syntactic position ends in a circuit or an exception
static void tokensIn(const char *pre, const char *post, const char *const *al, unsigned na, unsigned len, const char *head = nullptr) {
  std::string s = head ? head : "OPENQASM 3.0;\nqubit[3] q;\nbit[2] c;\nbit b;\nconst uint k = 1;\ngate g(a) x, y { rx(a) x; cx x, y; }\n";
  s += pre;
  for (unsigned i = 0; i < len; ++i) { const unsigned t = pin("token", 0, na); if (t == na) continue; s += al[t]; s += " "; }
  s += post;
  auto r = imp(s);
  if (r) { sym_cover("accepted"); (void)r->getNops(); } else sym_cover("rejected");
}
#define TOK(name, pre, post, lq, lt, ...) HARNESS(name) { static const char *const al[] = {__VA_ARGS__}; tokensIn(pre, post, al, sizeof al / sizeof *al, sym_tier() ? lt : lq); }
TOK(tokExpr, "rx(", ") q[0];", 3, 4, "1", "0", "k", "pi", "+", "-", "*", "/", "^", "(", ")", "~", "!", "sin", "-9223372036854775808", "==", "true", "foo", ",", "q", "c[0]")
TOK(tokCond, "if (", ") x q[0];", 3, 4, "c", "b", "c[0]", "!", "~", "==", "<", "1", "true", "-1", "k", "foo", "q", "1.5", "(", ")", "[", "]", "$0", "measure")
TOK(tokOperand, "x ", ";", 3, 4, "q", "q[0]", "q[", "]", "c", "$1", ",", "k", "-1", "1.5", "0", "b", "[", "q[3]", "g", ";")
TOK(tokMod, "", " q[0], q[1], q[2];", 3, 4, "ctrl @", "negctrl @", "inv @", "pow(2) @", "ctrl(-1) @", "ctrl(2) @", "ctrl(k) @", "ctrl(1.5) @", "ctrl(0) @", "ctrl(4) @", "cx", "x", "g(1)", "swap", "U(1,2,3)", "gphase(1)", "mcx", "mcx_vchain", "barrier", "reset", "measure")
TOK(tokAssign, "", ";", 3, 4, "c", "b", "c[0]", "=", "+=", "measure", "q", "q[0]", "->", "foo", "~", "1", "c[", "]", "bit", "uint", "const", "true", "float", "k")
TOK(tokDecl, "", " d;", 3, 4, "bit", "qubit", "uint", "int", "bool", "angle", "duration", "creg", "qreg", "[", "]", "2", "0", "k", "-1", "const", "pi", "c", "~", "foo", "float")
TOK(tokGate, "gate h2", " } h2 q[0];", 3, 4, "x", "(", ")", "{", "}", "a", ",", "h2 x;", "x x;", "reset x;", "barrier x;", "x y;", "cx x, x;", "U(a,a,a) x;", "ctrl @ h2 x;", "x[0]", ";", "inv @", "x q[0];", "measure")
TOK(tokIf, "if (b) {", "} else { x q[0]; }", 2, 3, "x q[0];", "barrier q;", "reset q[0];", "c = measure q;", "}", "{", "else", "if (b)", "bit d;", "g(1) q[0], q[1];", "foo;", "ctrl @ x q[0], q[1];", "gphase(1);", "x q;", "")
TOK(tokLayout, "//", "\nx q[0];\n", 3, 4, "i", "o", "0", "1", "2", "7", "99999999999999999999", "4294967296", "x", "//", "i 0 1 2", "o 0 1 2", "o 1 0")
// ------------------------------------------------------------------ literals
HARNESS(literal) {
  std::cerr.rdbuf(nullptr);
  const unsigned base = pin("base", 0, 3), n = 2;
  const unsigned bs[] = {2, 8, 10, 16};
  std::string s = base == 0 ? "0b" : base == 1 ? "0o" : base == 2 ? "" : pinB("upperX") ? "0X" : "0x";
  std::uint64_t v = 0;
  for (unsigned i = 0; i < n; ++i) {
    const std::uint8_t d = (std::uint8_t)sym_range("digit", 0, bs[base] - 1);
    const bool up = sym_bool("upper");
    if (base == 2 && i == 0) sym_assume(d != 0);
    std::uint64_t ch = s_ite(d < 10, '0' + d, s_ite(up, 'A' + d - 10, 'a' + d - 10));
    s.push_back((char)ch);
    v = v * bs[base] + d;
    if (i == 0 && pinB("underscore")) s.push_back('_');
  }
  std::istringstream is(s);
  qasm3::Scanner sc(&is);
  const auto t = sc.next();
  sym_assert(t.kind == qasm3::Token::Kind::IntegerLiteral, "an integer literal is not scanned as one");
  sym_assert((std::uint64_t)t.val == v, "an integer literal has a wrong value");
  sym_assert(sc.next().kind == qasm3::Token::Kind::Eof, "an integer literal is not consumed completely");
  sym_cover("int");
}
// ------------------------------------------------------------------ constant expressions
using qasm3::Expression; using qasm3::Constant; using qasm3::BinaryExpression; using qasm3::UnaryExpression; namespace const_eval = qasm3::const_eval;
using const_eval::ConstEvalValue;
static std::shared_ptr<Expression> K(std::int64_t v, bool s) { return std::make_shared<Constant>(v, s); }
// arithmetic on integer constants: exact two's complement arithmetic or an error, never a crash
static void intExpr(bool overflowOps) {
  const BinaryExpression::Op lin[] = {BinaryExpression::Add, BinaryExpression::Subtract, BinaryExpression::LessThan, BinaryExpression::LessThanOrEqual, BinaryExpression::GreaterThan, BinaryExpression::GreaterThanOrEqual, BinaryExpression::Equal, BinaryExpression::NotEqual, BinaryExpression::BitwiseAnd, BinaryExpression::BitwiseOr, BinaryExpression::BitwiseXor};
  const BinaryExpression::Op nl[] = {BinaryExpression::Multiply, BinaryExpression::Divide, BinaryExpression::Modulo, BinaryExpression::LeftShift, BinaryExpression::RightShift};
  const auto op = overflowOps ? nl[pin("op", 0, 4)] : lin[pin("op", 0, 10)];
  const bool ls = pinB("lhsSigned"), rs = pinB("rhsSigned"), sg = ls || rs;
  const std::int64_t a = sym_i64("a"), b = sym_i64("b");
  const_eval::ConstEvalPass p;
  std::optional<ConstEvalValue> r;
  try { r = p.visit(std::make_shared<BinaryExpression>(op, K(a, ls), K(b, rs))); } catch (const std::exception &) { sym_cover("rejected"); sym_assert(overflowOps, "an integer expression was rejected"); sym_assert(op == BinaryExpression::Multiply || s_or(b == 0, s_or(b < 0, b > 63)) , "a valid integer expression was rejected"); return; }
  sym_assert(r.has_value(), "a constant expression has no value");
  const std::uint64_t ua = (std::uint64_t)a, ub = (std::uint64_t)b;
  std::uint64_t e = 0; bool isB = false;
  switch (op) {
  case BinaryExpression::Add: e = ua + ub; break;
  case BinaryExpression::Subtract: e = ua - ub; break;
  case BinaryExpression::Multiply: e = ua * ub; break;
  case BinaryExpression::Divide: sym_assert(b != 0, "division by zero has a value"); e = sg ? (b == -1 ? 0 - ua : (std::uint64_t)(a / b)) : ua / ub; break;
  case BinaryExpression::Modulo: sym_assert(b != 0, "division by zero has a value"); e = sg ? (b == -1 ? 0 : (std::uint64_t)(a % b)) : ua % ub; break;
  case BinaryExpression::LeftShift: sym_assume(ub < 64); e = ua << ub; break;
  case BinaryExpression::RightShift: sym_assume(ub < 64); e = sg ? (std::uint64_t)(a >> ub) : ua >> ub; break;
  case BinaryExpression::LessThan: isB = true; e = sg ? a < b : ua < ub; break;
  case BinaryExpression::LessThanOrEqual: isB = true; e = sg ? a <= b : ua <= ub; break;
  case BinaryExpression::GreaterThan: isB = true; e = sg ? a > b : ua > ub; break;
  case BinaryExpression::GreaterThanOrEqual: isB = true; e = sg ? a >= b : ua >= ub; break;
  case BinaryExpression::Equal: isB = true; e = a == b; break;
  case BinaryExpression::NotEqual: isB = true; e = a != b; break;
  case BinaryExpression::BitwiseAnd: e = ua & ub; break;
  case BinaryExpression::BitwiseOr: e = ua | ub; break;
  default: e = ua ^ ub; break;
  }
  if (isB) { sym_assert(r->type == ConstEvalValue::ConstBool, "a comparison is not boolean"); sym_assert(std::get<2>(r->value) == (e != 0), "a comparison has a wrong value"); }
  else { sym_assert(r->type == (sg ? ConstEvalValue::ConstInt : ConstEvalValue::ConstUint), "an integer expression has a wrong type"); sym_assert((std::uint64_t)std::get<0>(r->value) == e, "an integer expression has a wrong value"); }
  sym_cover("value");
}
HARNESS(constInt) { intExpr(false); }
HARNESS(constIntNl) { intExpr(true); }
// integer powers within small ranges
HARNESS(constPow) {
  const std::int64_t a = sym_srange("a", -5, 5), b = sym_srange("b", -2, 5);
  const bool s = pinB("signed");
  if (!s) sym_assume(s_and(a >= 0, b >= 0));
  const_eval::ConstEvalPass p;
  std::optional<ConstEvalValue> r;
  try { r = p.visit(std::make_shared<BinaryExpression>(BinaryExpression::Power, K(a, s), K(b, s))); } catch (const std::exception &) { sym_assert(b < 0, "a valid power was rejected"); sym_cover("rejected"); return; }
  sym_assert(r.has_value(), "a constant expression has no value");
  const std::int64_t A = (std::int64_t)sym_pin((std::uint64_t)a), B = (std::int64_t)sym_pin((std::uint64_t)b);
  if (r->type == ConstEvalValue::ConstFloat) { sym_assert(std::get<1>(r->value) == std::pow((double)A, (double)B), "a power has a wrong value"); return; }
  sym_assert(B >= 0, "a negative power of an integer has an integer value");
  std::int64_t e = 1;
  for (std::int64_t i = 0; i < B; ++i) e *= A;
  sym_assert(std::get<0>(r->value) == e, "a power has a wrong value");
  sym_cover("value");
}
// real-valued expressions: value of the parsed text equals the value under the usual rules
struct RefParser { // reference: ^ binds tighter than unary minus at the start, then * /, then + -
  const std::vector<std::string> &t; size_t i = 0; bool ok = true;
  double atom() {
    if (i >= t.size()) { ok = false; return 0; }
    const std::string s = t[i++];
    if (s == "(") { double v = expr(); if (i >= t.size() || t[i] != ")") { ok = false; return 0; } ++i; return v; }
    if (s == "pi") return PI;
    if (s == "a") return 0.75;
    if (s == "sin" || s == "sqrt" || s == "cos") { if (i >= t.size() || t[i] != "(") { ok = false; return 0; } ++i; double v = expr(); if (i >= t.size() || t[i] != ")") { ok = false; return 0; } ++i; return s == "sin" ? std::sin(v) : s == "cos" ? std::cos(v) : std::sqrt(v); }
    if (s == "2.5") return 2.5;
    if (s == "0.5") return 0.5;
    ok = false; return 0;
  }
  double unary() { if (i < t.size() && t[i] == "-") { ++i; return -unary(); } return power(); }
  double power() { double v = atom(); while (i < t.size() && t[i] == "^") { ++i; double w = (i < t.size() && t[i] == "-") ? unary() : atom(); v = std::pow(v, w); } return v; }
  double term() { double v = unary(); while (i < t.size() && (t[i] == "*" || t[i] == "/")) { const bool m = t[i] == "*"; ++i; double w = unary(); v = m ? v * w : v / w; } return v; }
  double expr() { double v = term(); while (i < t.size() && (t[i] == "+" || t[i] == "-")) { const bool p = t[i] == "+"; ++i; double w = term(); v = p ? v + w : v - w; } return v; }
};
HARNESS(exprText) {
  static const char *al[] = {"a", "2.5", "+", "-", "*", "/", "^", "(", ")", "sin", "pi", "0.5", "sqrt"};
  const unsigned len = sym_tier() ? 6 : 5, na = sym_tier() ? 12 : 9;
  std::vector<std::string> t;
  const unsigned n = pin("len", 1, len);
  const bool space = sym_tier() ? pinB("spaces") : false;
  std::string e;
  for (unsigned i = 0; i < n; ++i) {
    // prune hopeless prefixes early
    const unsigned k = pin("token", 0, na);
    std::string s = al[k];
    const bool opnd = s == "pi" || s == "a" || s == "2.5" || s == "0.5" || s == "(" || s == "sin" || s == "sqrt";
    const bool prevOpnd = !t.empty() && (t.back() == "pi" || t.back() == "a" || t.back() == "2.5" || t.back() == "0.5" || t.back() == ")");
    const bool prevFn = !t.empty() && (t.back() == "sin" || t.back() == "sqrt");
    sym_assume(opnd ? !prevOpnd : (prevOpnd || s == "-"));
    sym_assume(!prevFn || s == "(");
    sym_assume(!(s == "-" && !t.empty() && t.back() == "-"));
    t.push_back(s);
    e += s;
    if (space) e += " ";
  }
  RefParser r{t};
  const double v = r.expr();
  sym_assume(r.ok && r.i == t.size());
  sym_assume(std::isfinite(v) && std::fabs(v) > 1e-6);
  auto c = imp("OPENQASM 3.0;\nconst float a = 0.75;\nqubit q;\nrx(" + e + ") q;\n");
  sym_assert(c != nullptr, "a valid expression is rejected");
  sym_assert(c->size() == 1 && c->at(0)->getParameter().size() == 1, "the gate was not imported");
  sym_assert(std::fabs(c->at(0)->getParameter()[0] - v) < 1e-12 * (1 + std::fabs(v)), "an expression has a wrong value");
  sym_cover("value");
}
// ------------------------------------------------------------------ gates
struct GN { const char *n; OpType t; unsigned c, k, p; }; // name, type, controls, targets, parameters
static const GN kNames[] = {
  {"U", U, 0, 1, 3}, {"p", P, 0, 1, 1}, {"u1", P, 0, 1, 1}, {"phase", P, 0, 1, 1}, {"cphase", P, 1, 1, 1}, {"cp", P, 1, 1, 1}, {"id", I, 0, 1, 0}, {"u2", U2, 0, 1, 2}, {"u3", U, 0, 1, 3}, {"u", U, 0, 1, 3},
  {"x", X, 0, 1, 0}, {"cx", X, 1, 1, 0}, {"CX", X, 1, 1, 0}, {"ccx", X, 2, 1, 0}, {"c3x", X, 3, 1, 0}, {"rx", RX, 0, 1, 1}, {"crx", RX, 1, 1, 1}, {"y", Y, 0, 1, 0}, {"cy", Y, 1, 1, 0}, {"ry", RY, 0, 1, 1}, {"cry", RY, 1, 1, 1},
  {"z", Z, 0, 1, 0}, {"cz", Z, 1, 1, 0}, {"rz", RZ, 0, 1, 1}, {"crz", RZ, 1, 1, 1}, {"h", H, 0, 1, 0}, {"ch", H, 1, 1, 0}, {"s", S, 0, 1, 0}, {"sdg", Sdg, 0, 1, 0}, {"t", T, 0, 1, 0}, {"tdg", Tdg, 0, 1, 0}, {"sx", SX, 0, 1, 0}, {"sxdg", SXdg, 0, 1, 0},
  {"swap", SWAP, 0, 2, 0}, {"cswap", SWAP, 1, 2, 0}, {"iswap", iSWAP, 0, 2, 0}, {"iswapdg", iSWAPdg, 0, 2, 0}, {"rxx", RXX, 0, 2, 1}, {"ryy", RYY, 0, 2, 1}, {"rzz", RZZ, 0, 2, 1}, {"rzx", RZX, 0, 2, 1}, {"dcx", DCX, 0, 2, 0}, {"ecr", ECR, 0, 2, 0}, {"xx_minus_yy", XXminusYY, 0, 2, 2}, {"xx_plus_yy", XXplusYY, 0, 2, 2},
  {"mcx", X, 2, 1, 0}, {"mcx_gray", X, 2, 1, 0}, {"mcphase", P, 2, 1, 1}, {"mcx", X, 1, 1, 0}};
static const GN kNames2[] = { // only with the version-2 prefix rule
  {"cccx", X, 3, 1, 0}, {"ccz", Z, 2, 1, 0}, {"cu1", P, 1, 1, 1}, {"cu3", U, 1, 1, 3}, {"csx", SX, 1, 1, 0}, {"ccswap", SWAP, 2, 2, 0}, {"crxx", RXX, 1, 2, 1}, {"ct", T, 1, 1, 0}};
static std::string args(unsigned n, std::vector<double> &p) {
  if (n == 0) return "";
  std::string s = "(";
  const char *tx[] = {"0.3", "pi/2", "-1.25", "pi"};
  const double v[] = {0.3, PI_2, -1.25, PI};
  for (unsigned i = 0; i < n; ++i) { const unsigned k = pin("arg", 0, 3); s += (i ? ", " : ""); s += tx[k]; p.push_back(v[k]); }
  return s + ")";
}
static std::vector<unsigned> distinct(unsigned n, unsigned nq) {
  std::vector<unsigned> r;
  for (unsigned i = 0; i < n; ++i) {
    unsigned d = pin("operand", 0, nq - 1 - i);
    std::vector<unsigned> fr;
    for (unsigned x = 0; x < nq; ++x) { bool u = false; for (auto y : r) u |= y == x; if (!u) fr.push_back(x); }
    r.push_back(fr[d]);
  }
  return r;
}
static void applyRef(SV &v, OpType t, const std::vector<double> &p, const std::vector<unsigned> &tg, unsigned mask, unsigned val) {
  if (t == GPhase) { const Cx e = cis(p.at(0)); for (unsigned i = 0; i < v.size(); ++i) if ((i & mask) == val) v[i] = v[i] * e; return; }
  applyMat(v, refGate(t, p), tg, mask, val);
}
HARNESS(stdGate) {
  const unsigned nq = 4;
  const bool v2 = pinB("version2");
  const unsigned k = pin("gate", 0, sizeof kNames / sizeof *kNames - 1 + (v2 ? sizeof kNames2 / sizeof *kNames2 : 0));
  const GN &g = k < sizeof kNames / sizeof *kNames ? kNames[k] : kNames2[k - sizeof kNames / sizeof *kNames];
  std::vector<double> p;
  std::string s = (v2 ? V2 + "qreg q[4];\n" : V3 + "qubit[4] q;\n") + g.n + args(g.p, p) + " ";
  auto o = distinct(g.c + g.k, nq);
  if (g.c + g.k == 4) sym_assume(o[1] < o[0] || sym_tier());
  for (size_t i = 0; i < o.size(); ++i) s += (i ? ", " : "") + q(o[i]);
  auto c = imp(s + ";\n");
  sym_assert(c != nullptr, "a standard gate is rejected");
  sym_assert(c->getNqubits() == nq, "number of qubits");
  unsigned mask = 0;
  for (unsigned i = 0; i < g.c; ++i) mask |= 1U << o[i];
  std::vector<unsigned> tg(o.begin() + g.c, o.end());
  for (unsigned x = 0; x < 16; ++x) {
    SV v = basis(nq, x);
    applyRef(v, g.t, p, tg, mask, mask);
    Ens e{Branch{0, basis(nq, x)}};
    applyCirc(e, *c);
    sym_assert(e.size() == 1, "a gate is imported as something that is not unitary");
    assertSameSV(e[0].v, v, "a standard gate is imported as another gate");
  }
  sym_cover("gate");
}
// qelib1/stdgates definitions that are no native gates
HARNESS(libGate) {
  const unsigned k = pin("gate", 0, 4);
  const char *n[] = {"rccx", "rc3x", "cu(0.3,0.7,-0.4,0.9)", "c3sqrtx", "mcx_vchain"};
  const unsigned nq[] = {3, 4, 2, 4, 5};
  std::string s = V2 + "qreg q[5];\n" + n[k] + " ";
  std::vector<unsigned> o;
  const bool rev = pinB("reversed");
  for (unsigned i = 0; i < nq[k]; ++i) { o.push_back(rev ? nq[k] - 1 - i : i); s += (i ? ", " : "") + q(o[i]); }
  auto c = imp(s + ";\n");
  sym_assert(c != nullptr, "a library gate is rejected");
  auto bit = [&](unsigned x, unsigned i) { return (x >> o[i]) & 1U; };
  for (unsigned x = 0; x < 32; ++x) {
    SV v = basis(5, x);
    auto at = [&](OpType t, std::vector<double> p, std::vector<unsigned> tg, std::vector<unsigned> ct) { unsigned m = 0; for (auto z : ct) m |= 1U << o[z]; for (auto &z : tg) z = o[z]; applyRef(v, t, p, tg, m, m); };
    if (k == 0) { // relative-phase Toffoli (Qiskit RCCXGate)
      v = SV(32);
      const unsigned a = bit(x, 0), b = bit(x, 1), t = bit(x, 2);
      unsigned y = x; Cx f{1, 0};
      if (a && b) { y = x ^ (1U << o[2]); f = Cx{0, t ? -1. : 1.}; }
      else if (a && t && !b) f = Cx{-1, 0};
      v[y] = f;
    } else if (k == 1) {
      auto u2 = [&] { at(U2, {0, PI}, {3}, {}); }; auto u1 = [&](double l) { at(P, {l}, {3}, {}); }; auto cx = [&](unsigned a) { at(X, {}, {3}, {a}); };
      u2(); u1(PI_4); cx(2); u1(-PI_4); u2(); cx(0); u1(PI_4); cx(1); u1(-PI_4); cx(0); u1(PI_4); cx(1); u1(-PI_4); u2(); u1(PI_4); cx(2); u1(-PI_4); u2();
    } else if (k == 2) { at(P, {0.9}, {0}, {}); at(U, {0.3, 0.7, -0.4}, {1}, {0}); }
    else if (k == 3) at(SXdg, {}, {3}, {0, 1, 2});
    else at(X, {}, {3}, {0, 1, 2}); // mcx_vchain: 3 controls, target, 1 ancilla
    Ens e{Branch{0, basis(5, x)}};
    applyCirc(e, *c);
    sym_assert(e.size() == 1, "not unitary");
    assertSameSV(e[0].v, v, "a library gate is imported as another gate");
  }
  sym_cover("lib");
}
// gates with any number of controls, with the ancillae of their decompositions
HARNESS(mcGates) {
  struct G { const char *name; unsigned operands, controls; bool phase; };
  static const G gs[] = {{"mcx", 2, 1, false}, {"mcx", 3, 2, false}, {"mcx", 4, 3, false}, {"mcx", 6, 5, false}, {"mcx_gray", 2, 1, false}, {"mcx_gray", 4, 3, false}, {"mcx_gray", 5, 4, false}, {"mcphase", 2, 1, true}, {"mcphase", 3, 2, true}, {"mcphase", 5, 4, true},
    {"mcx_vchain", 3, 2, false}, {"mcx_vchain", 5, 3, false}, {"mcx_vchain", 7, 4, false}, {"mcx_recursive", 2, 1, false}, {"mcx_recursive", 3, 2, false}, {"mcx_recursive", 4, 3, false}, {"mcx_recursive", 5, 4, false}, {"mcx_recursive", 7, 5, false}};
  const G &g = gs[pin("gate", 0, 17)];
  const unsigned mod = pin("modifier", 0, 3), rot = pin("order", 0, 3), extra = mod == 1 || mod == 2 ? 1 : 0, n = g.operands + extra;
  const bool in = pinB("inGate"), v2 = pinB("version2") && mod == 0;
  std::string s = (v2 ? V2 + "qreg q[" : V3 + "qubit[") + std::to_string(n) + (v2 ? "];\n" : "] q;\n");
  std::vector<unsigned> o;
  for (unsigned i = 0; i < n; ++i) o.push_back(rot == 3 ? n - 1 - i : (i + rot) % n);
  const std::string call = (mod == 1 ? "ctrl @ " : mod == 2 ? "negctrl @ " : mod == 3 ? "inv @ " : "") + std::string(g.name) + (g.phase ? "(0.7) " : " ");
  auto list = [&](const char *l, const char *r) { std::string t; for (unsigned i = 0; i < n; ++i) t += (i ? ", " : "") + std::string(l) + std::to_string(o[i]) + r; return t; };
  if (in) {
    std::string ps; for (unsigned i = 0; i < n; ++i) ps += (i ? ", a" : "a") + std::to_string(i);
    s += "gate w " + ps + " { " + call + list("a", "") + "; }\nw ";
    for (unsigned i = 0; i < n; ++i) s += (i ? ", " : "") + q(i);
    s += ";\n";
  } else s += call + list("q[", "]") + ";\n";
  auto c = imp(s);
  sym_assert(c != nullptr, "a gate with controls is rejected");
  unsigned m = 0, val = 0;
  for (unsigned i = 0; i < g.controls + extra; ++i) { m |= 1U << o[i]; if (!(mod == 2 && i == 0)) val |= 1U << o[i]; }
  SV v = genericState(n);
  Ens e{Branch{0, v}};
  applyCirc(e, *c);
  sym_assert(e.size() == 1, "not unitary");
  applyRef(v, g.phase ? P : X, g.phase ? std::vector<double>{mod == 3 ? -0.7 : 0.7} : std::vector<double>{}, {o[g.controls + extra]}, m, val);
  assertSameSV(e[0].v, v, "a gate with controls is imported as another gate");
  sym_cover("mc");
}
// modifiers, in any order and number, on native, controlled and user-defined gates
HARNESS(modifiers) {
  const unsigned nq = 4;
  struct B { const char *call; unsigned nt; };
  static const B bs[] = {{"x", 1}, {"s", 1}, {"rx(0.3)", 1}, {"u2(0.4,0.9)", 1}, {"swap", 2}, {"cx", 2}, {"g(0.7)", 2}, {"h1", 1}, {"dcx", 2}, {"gphase(0.6)", 0}, {"cu(0.3,0.7,-0.4,0.9)", 2}, {"crz(0.5)", 2}};
  const unsigned k = pin("gate", 0, 11);
  auto base = [&](SV &v, const std::vector<unsigned> &o, bool inv, unsigned m, unsigned val) {
    auto one = [&](OpType t, std::vector<double> p, std::vector<unsigned> tg, unsigned cm) { applyRef(v, t, p, tg, m | cm, val | cm); };
    std::vector<std::function<void()>> seq;
    const double sg = inv ? -1 : 1;
    auto bit = [&](unsigned i) { return 1U << o[i]; };
    switch (k) {
    case 0: seq = {[&] { one(X, {}, {o[0]}, 0); }}; break;
    case 1: seq = {[&] { one(P, {sg * PI_2}, {o[0]}, 0); }}; break;
    case 2: seq = {[&] { one(RX, {sg * 0.3}, {o[0]}, 0); }}; break;
    case 3: seq = {[&] { if (inv) one(U, {-PI_2, -0.9, -0.4}, {o[0]}, 0); else one(U, {PI_2, 0.4, 0.9}, {o[0]}, 0); }}; break;
    case 4: seq = {[&] { one(SWAP, {}, {o[0], o[1]}, 0); }}; break;
    case 5: seq = {[&] { one(X, {}, {o[1]}, bit(0)); }}; break;
    case 6: seq = {[&] { one(RX, {sg * 0.7}, {o[0]}, 0); }, [&] { one(X, {}, {o[1]}, bit(0)); }, [&] { one(P, {sg * 1.4}, {o[1]}, 0); }}; break;
    case 7: seq = {[&] { one(P, {sg * PI_4}, {o[0]}, 0); }}; break;
    case 8: seq = {[&] { if (inv) one(DCX, {}, {o[1], o[0]}, 0); else one(DCX, {}, {o[0], o[1]}, 0); }}; break;
    case 9: seq = {[&] { one(GPhase, {sg * 0.6}, {}, 0); }}; break;
    case 10: seq = {[&] { one(P, {sg * 0.9}, {o[0]}, 0); }, [&] { if (inv) one(U, {-0.3, 0.4, -0.7}, {o[1]}, bit(0)); else one(U, {0.3, 0.7, -0.4}, {o[1]}, bit(0)); }}; break;
    default: seq = {[&] { one(RZ, {sg * 0.5}, {o[1]}, bit(0)); }}; break;
    }
    if (inv) std::reverse(seq.begin(), seq.end());
    for (auto &f : seq) f();
  };
  std::string s = V3 + "qubit[4] q;\ngate h1 a { t a; }\ngate g(b) x1, y1 { rx(b) x1; cx x1, y1; p(2*b) y1; }\n";
  bool inv = false;
  std::vector<bool> ct;
  const unsigned nm = pin("modifiers", 0, 3);
  for (unsigned i = 0; i < nm; ++i) {
    const unsigned m = pin("modifier", 0, 3);
    if (m == 0) { s += "inv @ "; inv = !inv; }
    else if (m == 1) { s += "ctrl @ "; ct.push_back(true); }
    else if (m == 2) { s += "negctrl @ "; ct.push_back(false); }
    else { const bool n = pinB("neg2"); s += n ? "negctrl(2) @ " : "ctrl(2) @ "; ct.push_back(!n); ct.push_back(!n); }
  }
  const unsigned need = (unsigned)ct.size() + bs[k].nt;
  sym_assume(need <= nq && need > 0);
  s += std::string(bs[k].call) + " ";
  const unsigned rot = pin("rotate", 0, sym_tier() ? 3 : 1);
  std::vector<unsigned> o;
  for (unsigned i = 0; i < need; ++i) { o.push_back((i + rot) % nq); s += (i ? ", " : "") + q(o[i]); }
  auto c = imp(s + ";\n");
  sym_assert(c != nullptr, "a gate call with modifiers is rejected");
  unsigned m = 0, val = 0;
  for (size_t i = 0; i < ct.size(); ++i) { m |= 1U << o[i]; if (ct[i]) val |= 1U << o[i]; }
  std::vector<unsigned> tg(o.begin() + ct.size(), o.end());
  for (unsigned x = 0; x < 16; ++x) {
    SV v = basis(nq, x);
    base(v, tg, inv, m, val);
    Ens e{Branch{0, basis(nq, x)}};
    applyCirc(e, *c);
    sym_assert(e.size() == 1, "not unitary");
    assertSameSV(e[0].v, v, "a gate call with modifiers denotes another operation");
  }
  sym_cover("mod");
}
// operands that are whole registers
HARNESS(broadcast) {
  const unsigned n1 = 2, n2 = pin("size2", 1, 3);
  std::string s = V3 + "qubit[2] a;\nqubit[" + std::to_string(n2) + "] b;\nqubit d;\n";
  const unsigned nq = n1 + n2 + 1;
  struct O { const char *t; unsigned st, w; };
  const O os[] = {{"a", 0, n1}, {"b", n1, n2}, {"d", n1 + n2, 1}, {"a[1]", 1, 1}, {"b[0]", n1, 1}};
  static const char *gn[] = {"h", "cx", "swap", "ccx", "negctrl @ x", "rzx(0.4)", "g", "ctrl @ g"};
  const unsigned k = pin("gate", 0, 7);
  const unsigned ops[] = {1, 2, 2, 3, 2, 2, 2, 3};
  std::string call = std::string(gn[k]) + " ";
  std::vector<O> u;
  unsigned w = 1; bool valid = true;
  for (unsigned i = 0; i < ops[k]; ++i) { const O o = os[pin("operand", 0, 4)]; u.push_back(o); call += (i ? ", " : "") + std::string(o.t); if (o.w > 1) { if (w != 1 && w != o.w) valid = false; w = o.w; } }
  if (valid) for (unsigned j = 0; j < w; ++j) for (size_t x = 0; x < u.size(); ++x) for (size_t y = 0; y < x; ++y) if (u[x].st + (u[x].w > 1 ? j : 0) == u[y].st + (u[y].w > 1 ? j : 0)) valid = false;
  auto c = imp(s + "gate g x1, y1 { h x1; cx x1, y1; }\n" + call + ";\n");
  sym_assert((c != nullptr) == valid, "a gate call on registers is accepted exactly if the widths agree and no qubit is used twice");
  if (!c) { sym_cover("rejected"); return; }
  sym_assert(c->getNqubits() == nq, "number of qubits");
  for (unsigned x = 0; x < (1U << nq); ++x) {
    SV v = basis(nq, x);
    for (unsigned j = 0; j < w; ++j) {
      std::vector<unsigned> o;
      for (auto &z : u) o.push_back(z.st + (z.w > 1 ? j : 0));
      switch (k) {
      case 0: applyRef(v, H, {}, {o[0]}, 0, 0); break;
      case 1: applyRef(v, X, {}, {o[1]}, 1U << o[0], 1U << o[0]); break;
      case 2: applyRef(v, SWAP, {}, {o[0], o[1]}, 0, 0); break;
      case 3: applyRef(v, X, {}, {o[2]}, 1U << o[0] | 1U << o[1], 1U << o[0] | 1U << o[1]); break;
      case 4: applyRef(v, X, {}, {o[1]}, 1U << o[0], 0); break;
      case 5: applyRef(v, RZX, {0.4}, {o[0], o[1]}, 0, 0); break;
      case 6: applyRef(v, H, {}, {o[0]}, 0, 0); applyRef(v, X, {}, {o[1]}, 1U << o[0], 1U << o[0]); break;
      default: applyRef(v, H, {}, {o[1]}, 1U << o[0], 1U << o[0]); applyRef(v, X, {}, {o[2]}, 1U << o[0] | 1U << o[1], 1U << o[0] | 1U << o[1]); break;
      }
    }
    Ens e{Branch{0, basis(nq, x)}};
    applyCirc(e, *c);
    sym_assert(e.size() == 1, "not unitary");
    assertSameSV(e[0].v, v, "a gate call on registers denotes another operation");
  }
  sym_cover("broadcast");
}
// user-defined gates: parameters, nesting, scoping, order of operands
HARNESS(gateDefs) {
  // arguments and constants with clashing names
  static const char *pn[] = {"a", "b", "k"};
  const unsigned p1 = pin("param1", 0, 2), p2 = pin("param2", 0, 2);
  sym_assume(p1 != p2);
  const bool glob = pinB("globalConst");
  std::string s = V3 + "qubit[2] q;\n";
  if (glob) s += "const float k = 0.25;\n";
  const unsigned innerArg = pin("innerArg", 0, 3); // what the inner gate rotates by
  const std::string ia = innerArg == 0 ? "a" : innerArg == 1 ? "k" : innerArg == 2 ? "2*a" : "a+k";
  if (innerArg == 1 || innerArg == 3) sym_assume(glob);
  s += "gate inner(a) x1 { rx(" + ia + ") x1; }\n";
  const unsigned call = pin("call", 0, 2);
  const std::string ca = call == 0 ? pn[p1] : call == 1 ? pn[p2] : std::string(pn[p1]) + "-" + pn[p2];
  const bool swp = pinB("swapOperands");
  const bool sub = call == 2;
  s += std::string("gate outer(") + pn[p1] + "," + pn[p2] + ") x1, y1 { inner(" + (sub ? std::string(pn[p1]) + " - " + pn[p2] : ca) + ") " + (swp ? "y1" : "x1") + "; ry(" + pn[p2] + ") x1; cx " + (swp ? "y1, x1" : "x1, y1") + "; }\n";
  const bool inv = pinB("inv");
  const unsigned o = pinB("rev") ? 1 : 0;
  s += std::string(inv ? "inv @ " : "") + "outer(0.5, 1.25) " + q(o) + ", " + q(1 - o) + ";\n";
  const unsigned after = pin("after", 0, glob ? 3 : 2); // what the first call must not change
  if (after == 1) s += "outer(0.3, 0.9) q[0], q[1];\n";
  if (after == 2) s += "inner(pi/3) q[1];\n";
  if (after == 3) s += "rz(k) q[0];\n";
  auto c = imp(s);
  sym_assert(c != nullptr, "a call of a user-defined gate is rejected");
  const double v1 = 0.5, v2 = 1.25;
  const double arg = call == 0 ? v1 : call == 1 ? v2 : v1 - v2;
  const double rot = innerArg == 0 ? arg : innerArg == 1 ? 0.25 : innerArg == 2 ? 2 * arg : arg + 0.25;
  const unsigned x1 = o, y1 = 1 - o, t = swp ? y1 : x1, cc = swp ? y1 : x1, ct = swp ? x1 : y1;
  for (unsigned x = 0; x < 4; ++x) {
    SV v = basis(2, x);
    if (!inv) { applyRef(v, RX, {rot}, {t}, 0, 0); applyRef(v, RY, {v2}, {x1}, 0, 0); applyRef(v, X, {}, {ct}, 1U << cc, 1U << cc); }
    else { applyRef(v, X, {}, {ct}, 1U << cc, 1U << cc); applyRef(v, RY, {-v2}, {x1}, 0, 0); applyRef(v, RX, {-rot}, {t}, 0, 0); }
    auto rotOf = [&](double a) { return innerArg == 0 ? a : innerArg == 1 ? 0.25 : innerArg == 2 ? 2 * a : a + 0.25; };
    if (after == 1) { applyRef(v, RX, {rotOf(call == 0 ? 0.3 : call == 1 ? 0.9 : 0.3 - 0.9)}, {swp ? 1U : 0U}, 0, 0); applyRef(v, RY, {0.9}, {0}, 0, 0); applyRef(v, X, {}, {swp ? 0U : 1U}, swp ? 2 : 1, swp ? 2 : 1); }
    if (after == 2) applyRef(v, RX, {rotOf(PI / 3)}, {1}, 0, 0);
    if (after == 3) applyRef(v, RZ, {0.25}, {0}, 0, 0);
    Ens e{Branch{0, basis(2, x)}};
    applyCirc(e, *c);
    sym_assert(e.size() == 1, "not unitary");
    assertSameSV(e[0].v, v, "a user-defined gate denotes another operation");
  }
  sym_cover("defs");
}
// ------------------------------------------------------------------ classical control
HARNESS(conditions) {
  // two registers so that bit positions matter; all register values are tried
  const bool v2 = pinB("version2");
  std::string s = v2 ? V2 + "qreg q[1];\ncreg d[1];\ncreg c[2];\n" : V3 + "qubit[1] q;\nbit[1] d;\nbit[2] c;\nbit b;\n";
  const unsigned form = v2 ? 5 : pin("form", 0, 6);
  static const char *cmpS[] = {"==", "!=", "<", "<=", ">", ">="};
  static const ComparisonKind ck[] = {Eq, Neq, Lt, Leq, Gt, Geq};
  std::string cond; std::function<bool(unsigned)> ref; // on the 4-bit value d,c0,c1,b
  const unsigned cm = pin("cmp", 0, v2 ? 0 : 5), val = pin("val", 0, 3), idx = pin("idx", 0, 1);
  auto creg = [](unsigned x) { return (x >> 1) & 3U; };
  switch (form) {
  case 0: sym_assume(cm == 0 && val == 0); cond = "c[" + std::to_string(idx) + "]"; ref = [&](unsigned x) { return (x >> (1 + idx) & 1U) != 0; }; break;
  case 1: sym_assume(cm == 0 && val == 0); cond = "!c[" + std::to_string(idx) + "]"; ref = [&](unsigned x) { return (x >> (1 + idx) & 1U) == 0; }; break;
  case 2: sym_assume(cm == 0 && val == 0 && idx == 0); cond = "b"; ref = [&](unsigned x) { return (x >> 3 & 1U) != 0; }; break;
  case 3: sym_assume(cm == 0 && val == 0 && idx == 0); cond = "~b"; ref = [&](unsigned x) { return (x >> 3 & 1U) == 0; }; break;
  case 4: sym_assume(idx == 0); cond = std::to_string(val) + " " + cmpS[cm] + " c"; ref = [&](unsigned x) { return cmpKind(val, creg(x), ck[cm]); }; break;
  case 5: sym_assume(idx == 0); cond = std::string("c ") + cmpS[cm] + " " + std::to_string(val); ref = [&](unsigned x) { return cmpKind(creg(x), val, ck[cm]); }; break;
  default: sym_assume(cm < 2 && val < 2); cond = "c[" + std::to_string(idx) + "] " + cmpS[cm] + " " + std::to_string(val); ref = [&](unsigned x) { return cmpKind(x >> (1 + idx) & 1U, val, ck[cm]); }; break;
  }
  const bool els = !v2 && pinB("else");
  const bool twice = !v2 && pinB("twice"); // conditions must not influence each other
  s += "if (" + cond + ") x q[0];" + (els ? " else { h q[0]; s q[0]; }" : "") + "\n";
  if (twice) s += "c[0] = measure q[0];\nif (c == 1) y q[0];\nif (b) z q[0];\n";
  auto c = imp(s);
  sym_assert(c != nullptr, "a condition is rejected");
  for (unsigned x = 0; x < (v2 ? 8U : 16U); ++x) {
    Ens e{Branch{x, choiState(1)}}, r = e;
    applyCirc(e, *c);
    auto g = [&](Ens &z, OpType t) { for (auto &br : z) applyMat(br.v, refGate(t, {}), {0}, 0, 0); };
    if (ref(x)) g(r, X);
    else if (els) { g(r, H); g(r, S); }
    if (twice) {
      NonUnitaryOperation m((Qubit)0, (Bit)1);
      applyOp(r, m);
      for (auto &br : r) {
        if (creg((unsigned)br.c) == 1) applyMat(br.v, refGate(Y, {}), {0}, 0, 0);
        if (br.c >> 3 & 1U) applyMat(br.v, refGate(Z, {}), {0}, 0, 0);
      }
    }
    assertSameDens(density(e), density(r), "a condition is imported as another condition");
  }
  sym_cover("cond");
}
HARNESS(measures) {
  const bool v2 = pinB("version2");
  std::string s = v2 ? V2 + "creg e[1];\nqreg q[3];\ncreg c[3];\ncreg f[1];\ncreg z[1];\n" : V3 + "bit[1] e;\nqubit[3] q;\nbit[3] c;\nbit f;\nbit z;\n";
  const unsigned form = pin("form", 0, v2 ? 5 : 10);
  const unsigned a = pinQ("q", 3), b = pin("bit", 0, 2);
  NonUnitaryOperation all(std::vector<Qubit>{0, 1, 2}, std::vector<Bit>{1, 2, 3}), one((Qubit)a, (Bit)(b + 1)), first((Qubit)a, (Bit)0), last((Qubit)a, (Bit)4), rs(std::vector<Qubit>{(Qubit)a}, Reset), rall(std::vector<Qubit>{0, 1, 2}, Reset);
  Ens r{Branch{0, prodState(3, {2, 3, 1})}}, e = r;
  const std::string qa = q(a), cb = "c[" + std::to_string(b) + "]";
  unsigned nc = 6;
  s += "cx q[2], q[0];\n";
  StandardOperation cx(Control{2}, (Qubit)0, X); applyOp(r, cx);
  switch (form) {
  case 0: s += "measure q -> c;\n"; applyOp(r, all); break;
  case 1: s += "measure " + qa + " -> " + cb + ";\n"; applyOp(r, one); break;
  case 2: s += "reset " + qa + ";\n"; applyOp(r, rs); break;
  case 3: s += "reset q;\nbarrier q;\nbarrier q[0], q[2];\n"; applyOp(r, rall); break;
  case 4: s += "measure " + qa + " -> e[0];\n"; applyOp(r, first); break;
  case 5: s += "measure " + qa + " -> f[0];\n"; applyOp(r, last); break;
  case 6: s += "c = measure q;\n"; applyOp(r, all); break;
  case 7: s += cb + " = measure " + qa + ";\n"; applyOp(r, one); break;
  case 8: s += "e = measure " + qa + ";\n"; applyOp(r, first); break;
  case 9: s += "f = measure " + qa + ";\n"; applyOp(r, last); break;
  default: { s += "bit[3] d = measure q;\n"; nc = 9; NonUnitaryOperation al2(std::vector<Qubit>{0, 1, 2}, std::vector<Bit>{6, 7, 8}); applyOp(r, al2); break; }
  }
  auto c = imp(s);
  sym_assert(c != nullptr, "a measurement or reset is rejected");
  sym_assert(c->getNcbits() == nc && c->getNqubits() == 3, "number of bits");
  applyCirc(e, *c);
  assertSameDens(density(e), density(r), "a measurement or reset is imported as something else");
  sym_cover("measure");
}
// hardware qubits are the qubits of their index, and there are as many as needed
HARNESS(hardwareQubits) {
  const unsigned kMax = 3;
  std::string s = V3 + "gate g(t) a { rx(t) a; cx a, $1; }\nbit[2] c;\n";
  Ens r{Branch{0, prodState(kMax, {2, 3, 1})}}, e;
  unsigned used = 0;
  const unsigned n = sym_tier() ? 3 : 2;
  auto hq = [](unsigned i) { return "$" + std::to_string(i); };
  auto on = [&](unsigned i) { if (i + 1 > used) used = i + 1; };
  auto std1 = [&](OpType t, std::vector<fp> p, Controls cs, unsigned x) { StandardOperation o(cs, (Qubit)x, t, std::move(p)); applyOp(r, o); };
  for (unsigned i = 0; i < n; ++i) {
    const unsigned k = pin("statement", 0, 9), a = pin("qubit", 0, kMax - 1), b = (a + 1) % kMax;
    on(a);
    switch (k) {
    case 0: s += "h " + hq(a) + ";\n"; std1(H, {}, {}, a); break;
    case 1: s += "cx " + hq(a) + ", " + hq(b) + ";\n"; on(b); std1(X, {}, {Control{(Qubit)a}}, b); break;
    case 2: s += "negctrl @ p(0.7) " + hq(b) + ", " + hq(a) + ";\n"; on(b); std1(P, {0.7}, {Control{(Qubit)b, Control::Type::Neg}}, a); break;
    case 3: s += "c[1] = measure " + hq(a) + ";\n"; { NonUnitaryOperation o((Qubit)a, (Bit)1); applyOp(r, o); } break;
    case 4: s += "measure " + hq(a) + " -> c[0];\n"; { NonUnitaryOperation o((Qubit)a, (Bit)0); applyOp(r, o); } break;
    case 5: s += "reset " + hq(a) + ";\n"; { NonUnitaryOperation o(std::vector<Qubit>{(Qubit)a}, Reset); applyOp(r, o); } break;
    case 6: s += "barrier " + hq(a) + ", " + hq(b) + ";\n"; on(b); break;
    case 7: sym_assume(a != 1); s += "g(0.4) " + hq(a) + ";\n"; on(1); std1(RX, {0.4}, {}, a); std1(X, {}, {Control{(Qubit)a}}, 1); break;
    case 8: s += "swap " + hq(b) + ", " + hq(a) + ";\n"; on(b); { StandardOperation o(Controls{}, (Qubit)a, (Qubit)b, SWAP); applyOp(r, o); } break;
    default: { s += "if (c[0]) y " + hq(a) + ";\n"; ClassicControlledOperation o(std::make_unique<StandardOperation>((Qubit)a, Y), (Bit)0); applyOp(r, o); break; }
    }
  }
  auto c = imp(s);
  sym_assert(c != nullptr, "a program on hardware qubits is rejected");
  sym_assert(c->getNqubits() == used && c->getNcbits() == 2, "a program has another number of qubits than the hardware qubits it uses");
  for (unsigned i = 0; i < used; ++i) sym_assert(c->initialLayout.count((Qubit)i) && c->initialLayout.at((Qubit)i) == i, "the layout of hardware qubits is not the identity");
  e = {Branch{0, prodState(kMax, {2, 3, 1})}};
  applyCirc(e, *c);
  assertSameDens(density(e), density(r), "a program on hardware qubits is imported as something else");
  sym_cover("hardware");
}
// layout comments set the permutations, other comments have no effect
HARNESS(layoutComment) {
  static const unsigned ps[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const unsigned li = pin("i", 0, 6), lo = pin("o", 0, 6);
  static const char *cs[] = {"", "// a comment", "// qubit 1 of multi 2 controlled", "/* i 2 1 0 */", "// phi 0", "// o", "// to 1 2"};
  const std::string cm = cs[pin("comment", 0, 6)];
  auto line = [&](char c, const unsigned *p) { std::string r = std::string("// ") + c; for (unsigned i = 0; i < 3; ++i) r += " " + std::to_string(p[i]); return r + "\n"; };
  std::string s;
  if (li < 6) s += line('i', ps[li]);
  if (lo < 6) s += line('o', ps[lo]);
  const bool after = pinB("after");
  s += (after ? "" : cm + "\n") + V3 + "qubit[3] q;\n" + (after ? cm + "\n" : "") + "h q;\n";
  auto c = imp(s);
  sym_assert(c != nullptr, "a program with layout comments is rejected");
  for (unsigned l = 0; l < 3; ++l) {
    sym_assert(c->initialLayout.size() == 3 && c->outputPermutation.size() == 3, "the layout has another size");
    const unsigned pi = li < 6 ? ps[li][l] : l, po = lo < 6 ? ps[lo][l] : l;
    sym_assert(c->initialLayout.at(pi) == l, "the initial layout does not follow the comment");
    sym_assert(c->outputPermutation.at(po) == l, "the output permutation does not follow the comment");
  }
  sym_cover("layout");
}
// sequences of statements: every one keeps its meaning whatever came before
HARNESS(stmts) {
  std::string s = V3 + "qubit[2] q;\nbit[2] c;\nbit d;\n";
  Ens r{Branch{0, choiState(2)}}, e = r;
  auto g = [&](Ens &z, OpType t, unsigned x) { for (auto &br : z) applyMat(br.v, refGate(t, {}), {x}, 0, 0); };
  auto gc = [&](Ens &z, const std::function<bool(std::uint64_t)> &f, const std::function<void(Ens &)> &th, const std::function<void(Ens &)> &el) {
    Ens out;
    for (auto &br : z) { Ens one{br}; if (f(br.c)) th(one); else if (el) el(one); for (auto &o : one) out.push_back(o); }
    z = std::move(out);
  };
  auto ms = [&](Ens &z, std::vector<Qubit> qs, std::vector<Bit> bs) { NonUnitaryOperation m(std::move(qs), std::move(bs)); applyOp(z, m); };
  const unsigned n = sym_tier() ? 4 : 3;
  for (unsigned i = 0; i < n; ++i) {
    switch (pin("statement", 0, 12)) {
    case 0: s += "c = measure q;\n"; ms(r, {0, 1}, {0, 1}); break;
    case 1: s += "c[1] = measure q[0];\n"; ms(r, {0}, {1}); break;
    case 2: s += "if (c[0]) x q[1];\n"; gc(r, [](std::uint64_t c) { return (c & 1) != 0; }, [&](Ens &z) { g(z, X, 1); }, {}); break;
    case 3: s += "if (c[1] == 1) x q[0];\n"; gc(r, [](std::uint64_t c) { return (c & 2) != 0; }, [&](Ens &z) { g(z, X, 0); }, {}); break;
    case 4: s += "if (d == 1) { h q[0]; }\n"; gc(r, [](std::uint64_t c) { return (c & 4) != 0; }, [&](Ens &z) { g(z, H, 0); }, {}); break;
    case 5: s += "if (c >= 2) y q[1];\n"; gc(r, [](std::uint64_t c) { return (c & 3) >= 2; }, [&](Ens &z) { g(z, Y, 1); }, {}); break;
    case 6: s += "reset q[0];\n"; { NonUnitaryOperation rs(std::vector<Qubit>{0}, Reset); applyOp(r, rs); } break;
    case 7: s += "d = measure q[1];\n"; ms(r, {1}, {2}); break;
    case 8: s += "barrier q;\n"; break;
    case 9: s += "if (!d) { x q[0]; h q[1]; } else z q[0];\n"; gc(r, [](std::uint64_t c) { return (c & 4) == 0; }, [&](Ens &z) { g(z, X, 0); g(z, H, 1); }, [&](Ens &z) { g(z, Z, 0); }); break;
    case 10: s += "cx q[2 - 2], q[2-1];\n"; for (auto &br : r) applyMat(br.v, refGate(X, {}), {1}, 1, 1); break;
    case 11: s += "h q;\n"; g(r, H, 0); g(r, H, 1); break;
    default: s += "inv @ s q[1]; gphase(-pi/2);\n"; g(r, Sdg, 1); for (auto &br : r) for (auto &a : br.v) a = a * Cx{0, -1}; break;
    }
  }
  auto c = imp(s);
  sym_assert(c != nullptr, "a valid sequence of statements is rejected");
  sym_assert(c->getNqubits() == 2 && c->getNcbits() == 3, "a program has another number of qubits or bits than it declares");
  applyCirc(e, *c);
  assertSameDens(density(e), density(r), "a sequence of statements is imported as something else");
  sym_cover("stmts");
}
