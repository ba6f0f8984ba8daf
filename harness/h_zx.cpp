// ZX-diagrams: construction from circuits, rewriting, composition, bookkeeping.
#include "sem.h"
#include "zx/FunctionalityConstruction.hpp"
#include "zx/Rational.hpp"
#include "zx/Rules.hpp"
#include "zx/Simplify.hpp"
#include "zx/Utils.hpp"
#include "zx/ZXDefinitions.hpp"
#include "zx/ZXDiagram.hpp"
#include <algorithm>
#include <functional>
#include <numeric>
using zx::EdgeType; using zx::PiExpression; using zx::PiRational; using zx::Vertex; using zx::VertexType; using zx::ZXDiagram; using FC = zx::FunctionalityConstruction;
using PTerm = sym::Term<double>;
static std::map<std::string, double> gVal{{"a", 0.7342}, {"b", -1.931}, {"c", 2.513}, {"d", 0.2817}};
static double angleOf(const PiExpression &e, const std::map<std::string, double> &val = gVal) {
  double r = e.getConst().toDouble();
  for (const auto &t : e) r = r + t.getCoeff() * val.at(t.getVar().getName());
  return r;
}
// a tensor over binary indices
struct Ten { std::vector<unsigned> ix; std::vector<Cx> v; };
static Ten mulT(const Ten &a, const Ten &b) {
  Ten r; r.ix = a.ix;
  for (auto i : b.ix) if (std::find(r.ix.begin(), r.ix.end(), i) == r.ix.end()) r.ix.push_back(i);
  const unsigned n = (unsigned)r.ix.size();
  r.v.resize(1U << n);
  std::vector<unsigned> pa, pb;
  for (auto i : a.ix) pa.push_back((unsigned)(std::find(r.ix.begin(), r.ix.end(), i) - r.ix.begin()));
  for (auto i : b.ix) pb.push_back((unsigned)(std::find(r.ix.begin(), r.ix.end(), i) - r.ix.begin()));
  for (unsigned x = 0; x < (1U << n); ++x) {
    unsigned xa = 0, xb = 0;
    for (unsigned k = 0; k < pa.size(); ++k) xa |= (x >> pa[k] & 1U) << k;
    for (unsigned k = 0; k < pb.size(); ++k) xb |= (x >> pb[k] & 1U) << k;
    r.v[x] = a.v[xa] * b.v[xb];
  }
  return r;
}
static Ten sumOut(const Ten &a, unsigned i) {
  const unsigned k = (unsigned)(std::find(a.ix.begin(), a.ix.end(), i) - a.ix.begin());
  Ten r;
  for (auto j : a.ix) if (j != i) r.ix.push_back(j);
  r.v.resize(a.v.size() / 2);
  for (unsigned x = 0; x < r.v.size(); ++x) { const unsigned lo = x & ((1U << k) - 1), hi = x >> k; const unsigned y = hi << (k + 1) | lo; r.v[x] = a.v[y] + a.v[y | 1U << k]; }
  return r;
}
// the linear map of a diagram up to a positive factor: U[column][row]
static std::vector<SV> denote(const ZXDiagram &d, const std::map<std::string, double> &val = gVal) {
  const auto verts = d.getVertices();
  std::map<Vertex, unsigned> id;
  for (const auto &[v, _] : verts) { const unsigned k = (unsigned)id.size(); id[v] = k; }
  sym_assert(id.size() == d.getNVertices(), "the vertices that are iterated are not the vertices of the diagram");
  std::vector<unsigned> uf(id.size());
  std::iota(uf.begin(), uf.end(), 0U);
  std::function<unsigned(unsigned)> find = [&](unsigned x) { return uf[x] == x ? x : uf[x] = find(uf[x]); };
  struct E { unsigned a, b; };
  std::vector<E> had;
  size_t half = 0;
  for (const auto &[v, data] : verts) {
    unsigned self = 0;
    for (const auto &e : d.incidentEdges(v)) {
      ++half;
      sym_assert(id.count(e.to) != 0, "an edge leads to a deleted vertex");
      unsigned back = 0, same = 0;
      for (const auto &f : d.incidentEdges(e.to)) if (f.to == v && f.type == e.type) ++back;
      for (const auto &f : d.incidentEdges(v)) if (f.to == e.to && f.type == e.type) ++same;
      sym_assert(back == same, "the two directions of an edge differ");
      if (e.to < v) continue;
      if (e.to == v && (++self & 1U)) continue;
      bool h = e.type == EdgeType::Hadamard;
      if (d.type(v) == VertexType::X) h = !h;
      if (d.type(e.to) == VertexType::X) h = !h;
      if (h) had.push_back({id[v], id[e.to]}); else uf[find(id[v])] = find(id[e.to]);
    }
  }
  sym_assert(half == 2 * d.getNEdges(), "the number of edges is wrong");
  const unsigned n = (unsigned)id.size();
  std::vector<double> ph(n, 0.);
  std::vector<bool> used(n, false), any(n, false);
  for (const auto &[v, data] : verts) {
    used[find(id[v])] = true;
    if (data.type != VertexType::Boundary && !(data.phase.isZero())) { ph[find(id[v])] = ph[find(id[v])] + angleOf(data.phase, val); any[find(id[v])] = true; }
  }
  std::vector<Ten> ts;
  for (unsigned c = 0; c < n; ++c) if (used[c]) ts.push_back({{c}, {Cx{1, 0}, any[c] ? cis(ph[c]) : Cx{1, 0}}});
  std::map<std::pair<unsigned, unsigned>, unsigned> hc;
  for (auto &e : had) { unsigned a = find(e.a), b = find(e.b); if (a > b) std::swap(a, b); hc[{a, b}]++; }
  for (auto &[k, c] : hc) {
    if (!(c & 1U)) continue;
    if (k.first == k.second) ts.push_back({{k.first}, {Cx{1, 0}, Cx{-1, 0}}});
    else ts.push_back({{k.first, k.second}, {Cx{1, 0}, Cx{1, 0}, Cx{1, 0}, Cx{-1, 0}}});
  }
  const auto &in = d.getInputs(), &out = d.getOutputs();
  std::vector<bool> open(n, false);
  for (auto v : in) { sym_assert(id.count(v) != 0 && d.type(v) == VertexType::Boundary, "an input is not a boundary vertex"); open[find(id[v])] = true; }
  for (auto v : out) { sym_assert(id.count(v) != 0 && d.type(v) == VertexType::Boundary, "an output is not a boundary vertex"); open[find(id[v])] = true; }
  std::vector<bool> todo(n);
  for (unsigned c = 0; c < n; ++c) todo[c] = used[c] && !open[c];
  while (true) {
    unsigned best = n; size_t cost = ~0ULL;
    for (unsigned c = 0; c < n; ++c) if (todo[c]) {
      std::vector<unsigned> u;
      for (auto &t : ts) if (std::find(t.ix.begin(), t.ix.end(), c) != t.ix.end()) for (auto i : t.ix) if (std::find(u.begin(), u.end(), i) == u.end()) u.push_back(i);
      if (u.size() < cost) { cost = u.size(); best = c; }
    }
    if (best == n) break;
    todo[best] = false;
    Ten acc{{}, {Cx{1, 0}}}; std::vector<Ten> rest;
    for (auto &t : ts) if (std::find(t.ix.begin(), t.ix.end(), best) != t.ix.end()) acc = mulT(acc, t); else rest.push_back(t);
    acc = sumOut(acc, best);
    rest.push_back(acc);
    ts = std::move(rest);
  }
  Ten all{{}, {Cx{1, 0}}};
  for (auto &t : ts) all = mulT(all, t);
  std::vector<SV> u(1U << in.size(), SV(1U << out.size()));
  for (unsigned c = 0; c < u.size(); ++c) for (unsigned r = 0; r < u[c].size(); ++r) {
    std::map<unsigned, unsigned> as; bool ok = true;
    auto put = [&](Vertex v, unsigned b) { const unsigned k = find(id[v]); if (as.count(k) && as[k] != b) ok = false; as[k] = b; };
    for (unsigned q = 0; q < in.size(); ++q) put(in[q], c >> q & 1U);
    for (unsigned q = 0; q < out.size(); ++q) put(out[q], r >> q & 1U);
    if (!ok) continue;
    unsigned x = 0;
    for (unsigned k = 0; k < all.ix.size(); ++k) x |= as.at(all.ix[k]) << k;
    u[c][r] = all.v[x];
  }
  return u;
}
static Cx conj(Cx a) { return {a.re, -a.im}; }
static double abs2(Cx a) { return a.re * a.re + a.im * a.im; }
// a and b agree up to a non-zero factor (numbers only); a zero map a allows anything
static bool propTo(const std::vector<SV> &a, const std::vector<SV> &b, double tol = 1e-7) {
  size_t pc = 0, pr = 0; double best = 0, nb = 0;
  for (size_t c = 0; c < a.size(); ++c) for (size_t r = 0; r < a[c].size(); ++r) { if (abs2(a[c][r]) > best) { best = abs2(a[c][r]); pc = c; pr = r; } nb = std::max(nb, abs2(b[c][r])); }
  if (best < 1e-12) { sym_cover("zero"); return true; }
  if (!(nb > 1e-12)) return false;
  const double sa = 1 / std::sqrt(best), sb = 1 / std::sqrt(nb);
  const Cx pa = {a[pc][pr].re * sa, a[pc][pr].im * sa}, pb = {b[pc][pr].re * sb, b[pc][pr].im * sb};
  for (size_t c = 0; c < a.size(); ++c) for (size_t r = 0; r < a[c].size(); ++r) {
    const Cx x = Cx{a[c][r].re * sa, a[c][r].im * sa} * pb, y = Cx{b[c][r].re * sb, b[c][r].im * sb} * pa;
    if (!(std::fabs(x.re - y.re) < tol && std::fabs(x.im - y.im) < tol)) return false;
  }
  return true;
}
static void sameUpToScalar(const std::vector<SV> &a, const std::vector<SV> &b, const char *msg, double tol = 1e-7) {
  sym_assert(a.size() == b.size() && a[0].size() == b[0].size(), "the diagram has the wrong number of inputs or outputs");
  sym_assert(propTo(a, b, tol), msg);
}
// the same for all values of the variables: every entry against a pivot that is not zero for gVal
static void sameForAll(const std::vector<SV> &a, const std::vector<SV> &b, const std::vector<SV> &a0, const char *msg) {
  size_t pc = 0, pr = 0; double best = 0;
  for (size_t c = 0; c < a0.size(); ++c) for (size_t r = 0; r < a0[c].size(); ++r) if (abs2(a0[c][r]) > best) { best = abs2(a0[c][r]); pc = c; pr = r; }
  for (size_t c = 0; c < a.size(); ++c) for (size_t r = 0; r < a[c].size(); ++r) {
    const Cx x = a[c][r] * b[pc][pr], y = b[c][r] * a[pc][pr];
    sym_assert_near(x.re, y.re, 1e-6, msg); sym_assert_near(x.im, y.im, 1e-6, msg);
  }
}
// ------------------------------------------------------------ construction
// the circuit's map with every operation on the wires of the initial layout
static bool gFlip = false; // XXminusYY with the opposite angle
static bool hasType(const qc::Operation &op, qc::OpType t) {
  if (op.isCompoundOperation()) { for (const auto &s : dynamic_cast<const qc::CompoundOperation &>(op)) if (hasType(*s, t)) return true; return false; }
  return op.getType() == t;
}
static void wireOp(SV &v, const qc::Operation &op, const qc::Permutation &p) {
  if (op.isCompoundOperation()) { for (const auto &s : dynamic_cast<const qc::CompoundOperation &>(op)) wireOp(v, *s, p); return; }
  const auto t = op.getType();
  if (t == qc::Barrier || t == qc::Measure) return;
  qc::Controls cs;
  for (const auto &c : op.getControls()) cs.emplace(qc::Control{p.at(c.qubit), c.type});
  unsigned mask, val; ctrlMask(cs, mask, val);
  std::vector<double> pr(op.getParameter().begin(), op.getParameter().end());
  if (const auto *s = dynamic_cast<const qc::SymbolicOperation *>(&op)) {
    for (size_t i = 0; i < pr.size(); ++i) {
      const auto x = s->getParameter(i);
      if (std::holds_alternative<double>(x)) { pr[i] = std::get<double>(x); continue; }
      const auto &e = std::get<qc::Symbolic>(x);
      pr[i] = e.getConst();
      for (const auto &tm : e) pr[i] = pr[i] + tm.getCoeff() * gVal.at(tm.getVar().getName());
    }
  }
  if (t == qc::GPhase) { const Cx e = cis(pr.at(0)); for (unsigned i = 0; i < v.size(); ++i) if ((i & mask) == val) v[i] = v[i] * e; return; }
  if (gFlip && t == qc::XXminusYY) pr.at(0) = -pr.at(0);
  std::vector<unsigned> tg;
  for (auto q : op.getTargets()) tg.push_back(p.at(q));
  const Mat m = refGate(t, pr);
  if (m.n == 2) for (auto q : tg) applyMat(v, m, {q}, mask, val); else applyMat(v, m, tg, mask, val);
}
static std::vector<SV> wireU(const qc::QuantumComputation &c) {
  std::vector<SV> u;
  const unsigned n = (unsigned)c.getNqubits();
  for (unsigned x = 0; x < (1U << n); ++x) { SV v = basis(n, x); for (const auto &op : c) wireOp(v, *op, c.initialLayout); u.push_back(v); }
  return u;
}
static bool hasUnsup(const qc::Operation &op) { // operations without a linear map
  if (op.isCompoundOperation()) { for (const auto &s : dynamic_cast<const qc::CompoundOperation &>(op)) if (hasUnsup(*s)) return true; return false; }
  return op.isClassicControlledOperation() || op.getType() == qc::Reset;
}
static void layout(qc::QuantumComputation &c) {
  const unsigned n = (unsigned)c.getNqubits();
  std::vector<unsigned> p(n); std::iota(p.begin(), p.end(), 0U);
  if (n == 2) { if (pinB("layout")) std::swap(p[0], p[1]); }
  else { const unsigned k = pin("layout", 0, 2); if (k == 1) p = {1, 2, 0}; if (k == 2) p = {1, 0, 2}; }
  for (unsigned i = 0; i < n; ++i) c.initialLayout[i] = p[i];
}
// builds the diagram if the circuit is supported and compares it with the circuit
static bool buildAndCompare(const qc::QuantumComputation &c, ZXDiagram *outD = nullptr, double tol = 1e-7) {
  const bool can = FC::transformableToZX(&c);
  ZXDiagram d; bool threw = false;
  try { d = FC::buildFunctionality(&c); } catch (const zx::ZXException &) { threw = true; }
  sym_assert(threw == !can, "a circuit is reported as transformable exactly if it can be transformed");
  if (threw) { sym_cover("unsupported"); return false; }
  for (const auto &op : c) sym_assert(!hasUnsup(*op), "a circuit with resets or conditions became a diagram");
  sym_assert(d.getNQubits() == c.getNqubits() && d.getOutputs().size() == c.getNqubits(), "a diagram has the wrong number of qubits");
  const auto u = denote(d);
  gFlip = false;
  bool xxm = false;
  for (const auto &op : c) xxm |= hasType(*op, qc::XXminusYY);
  if (xxm && !propTo(wireU(c), u)) {
    gFlip = true;
    sym_assert(!propTo(wireU(c), u), "XXminusYY(theta, beta) becomes XXminusYY(-theta, beta)");
    gFlip = false;
  }
  sameUpToScalar(wireU(c), u, "the diagram of a circuit is not the circuit", tol);
  if (outD != nullptr) *outD = d;
  sym_cover("diagram");
  return true;
}
static const qc::OpType kParamTwo[] = {qc::RXX, qc::RYY, qc::RZZ, qc::RZX, qc::XXminusYY, qc::XXplusYY};
HARNESS(zxGate) { // one operation, every type, layout and controls
  qc::QuantumComputation c(3, 3);
  layout(c);
  GateCfg g;
  const unsigned kind = pin("kind", 0, 3);
  if (kind == 0) g.t = pick("one", kOne);
  else if (kind == 1) g.t = pick("two", kTwo);
  else if (kind == 2) g.t = qc::GPhase;
  if (kind <= 1) pickQubits(g, 3, kind == 0 ? 1 : 2, 2, 2);
  if (kind == 2) for (unsigned q = 0; q < 2; ++q) { const unsigned k = pin("ctrl", 0, 2); if (k) g.c.emplace(qc::Control{q, k == 2 ? qc::Control::Type::Neg : qc::Control::Type::Pos}); }
  if (kind <= 2) {
    concAngles(g, sym_tier() ? 8 : 2);
    // an asymmetric prefix makes wrong wires visible
    c.emplace_back(makeStd(g));
  } else {
    const unsigned k = pin("other", 0, 6);
    switch (k) {
    case 0: c.measure(0, 0); break;
    case 1: c.reset(1); break;
    case 2: c.barrier(); break;
    case 3: c.classicControlled(qc::X, 0, 0, 1U); break;
    case 4: c.barrier({0, 1}); c.h(1); break;
    case 5: { auto cp = std::make_unique<qc::CompoundOperation>(); cp->emplace_back(std::make_unique<qc::StandardOperation>(qc::Qubit{1}, qc::RY, std::vector<qc::fp>{0.4})); cp->emplace_back(std::make_unique<qc::StandardOperation>(qc::Control{1}, 2, qc::X)); c.emplace_back(std::move(cp)); break; }
    default: { auto cp = std::make_unique<qc::CompoundOperation>(); cp->emplace_back(std::make_unique<qc::NonUnitaryOperation>(std::vector<qc::Qubit>{1}, qc::Reset)); c.emplace_back(std::move(cp)); break; }
    }
  }
  buildAndCompare(c);
}
HARNESS(zxAngle) { // the angle of a rotation: multiples and fractions of pi, huge and tiny values
  qc::QuantumComputation c(1);
  static const qc::OpType ts[] = {qc::RZ, qc::RX, qc::RY, qc::P};
  const qc::OpType t = pick("type", ts);
  const unsigned k = pin("angle", 0, 5);
  double a = 0;
  if (k == 0) a = qc::PI / (double)(1ULL << pin("shift", 0, 40));
  if (k == 1) a = qc::PI / ((double)pin("den", 1, 17)) * ((double)pin("num", 0, 40) - 20);
  if (k == 2) a = (double)pin("int", 0, 64) - 32;
  if (k == 3) a = 1e10 * (double)pin("giga", 1, 12) + 0.25;
  if (k == 4) a = -qc::PI / (double)(1ULL << pin("shift", 0, 40)) + (double)pin("k", 0, 2) * 2 * qc::PI;
  if (k == 5) a = 0.1234567890123456 * (double)pin("gen", 1, 40);
  c.emplace_back(std::make_unique<qc::StandardOperation>(qc::Qubit{0}, t, std::vector<qc::fp>{a}));
  const double tol = k == 3 ? 1e-4 : 1e-11;
  buildAndCompare(c, nullptr, k == 3 ? 1e-4 : 1e-7);
  const double p = PiRational(a).toDouble();
  sym_assert(p > -qc::PI - 1e-9 && p <= qc::PI + 1e-9, "a phase is outside (-pi, pi]");
  // documented precision of the conversion
  sym_assert(std::fabs(std::cos(p) - std::cos(a)) < tol && std::fabs(std::sin(p) - std::sin(a)) < tol, "an angle is converted imprecisely");
}
HARNESS(zxSymGate) { // symbolic parameters, all values of the variables
  qc::QuantumComputation c(2);
  layout(c);
  static const qc::OpType ts[] = {qc::P, qc::RX, qc::RY, qc::RZ, qc::U2, qc::U, qc::RXX, qc::RYY, qc::RZZ, qc::RZX, qc::XXminusYY, qc::XXplusYY};
  GateCfg g; g.t = pick("type", ts);
  pickQubits(g, 2, isTwo(g.t) ? 2 : 1, g.t == qc::P ? 1 : 0, 1);
  std::vector<qc::SymbolOrNumber> ps;
  bool any = false;
  for (int i = 0; i < numParams(g.t); ++i) {
    switch (pin("param", 0, 3)) {
    case 0: ps.emplace_back(0.3 + i); break;
    case 1: ps.emplace_back(qc::Symbolic(sym::Term<qc::fp>(sym::Variable("a")))); any = true; break;
    case 2: { qc::Symbolic e(sym::Term<qc::fp>(sym::Variable("a"), 2.), sym::Term<qc::fp>(sym::Variable("b"), -1.)); e.setConst(0.25); ps.emplace_back(e); any = true; break; }
    default: ps.emplace_back(qc::Symbolic(sym::Term<qc::fp>(sym::Variable("b"), 0.5))); any = true; break;
    }
  }
  c.emplace_back(std::make_unique<qc::SymbolicOperation>(g.c, qc::Targets(g.tg.begin(), g.tg.end()), g.t, ps));
  ZXDiagram d;
  if (!buildAndCompare(c, &d)) return;
  const auto a0 = wireU(c);
  sym_real_mode();
  const auto keep = gVal;
  gVal["a"] = sym_real("a", -3, 3); gVal["b"] = sym_real("b", -3, 3);
  sameForAll(wireU(c), denote(d), a0, "the diagram of a symbolic circuit is not the circuit");
  gVal = keep;
  if (any) sym_cover("symbolic");
}
using Op = std::unique_ptr<qc::Operation>;
static Op o1(qc::OpType t, qc::Qubit q, std::vector<qc::fp> p = {}) { return std::make_unique<qc::StandardOperation>(q, t, p); }
static Op oc(qc::OpType t, qc::Controls c, qc::Qubit q, std::vector<qc::fp> p = {}) { return std::make_unique<qc::StandardOperation>(c, q, t, p); }
static Op o2(qc::OpType t, qc::Qubit a, qc::Qubit b, std::vector<qc::fp> p = {}) { return std::make_unique<qc::StandardOperation>(qc::Controls{}, a, b, t, p); }
template <class... A> static Op oComp(A &&...a) { auto c = std::make_unique<qc::CompoundOperation>(); (c->emplace_back(std::forward<A>(a)), ...); return c; }
static Op oSym(qc::OpType t, qc::Qubit q, const char *v, qc::fp coeff = 1) { return std::make_unique<qc::SymbolicOperation>(q, t, std::vector<qc::SymbolOrNumber>{qc::Symbolic(sym::Term<qc::fp>(sym::Variable(v), coeff))}); }
static const auto NEG = qc::Control::Type::Neg;
HARNESS(zxSwaps) { // runs of controlled-NOTs and swaps
  qc::QuantumComputation c(3);
  layout(c);
  c.ry(0.4, 1);
  const unsigned len = sym_tier() ? 4 : 3;
  for (unsigned i = 0; i < len; ++i) {
    const unsigned k = pin("op", 0, 8);
    static const qc::Qubit pr[4][2] = {{0, 1}, {1, 0}, {1, 2}, {2, 0}};
    switch (k) {
    case 0: case 1: case 2: case 3: c.emplace_back(oc(qc::X, {qc::Control{pr[k][0]}}, pr[k][1])); break;
    case 4: c.emplace_back(oc(qc::X, {qc::Control{0, NEG}}, 1)); break;
    case 5: c.swap(0, 1); break;
    case 6: c.barrier(); break;
    case 7: c.emplace_back(oComp(oc(qc::X, {qc::Control{0}}, 1), oc(qc::X, {qc::Control{1}}, 0))); break;
    default: c.mcx({0, 1}, 2); break;
    }
  }
  buildAndCompare(c);
}
// ------------------------------------------------------------ composition
static std::vector<SV> adjM(const std::vector<SV> &u) {
  std::vector<SV> r(u[0].size(), SV(u.size()));
  for (size_t c = 0; c < u.size(); ++c) for (size_t k = 0; k < u[c].size(); ++k) r[k][c] = conj(u[c][k]);
  return r;
}
static std::vector<SV> mulM(const std::vector<SV> &second, const std::vector<SV> &first) { // second * first
  std::vector<SV> r(first.size(), SV(second[0].size()));
  for (size_t c = 0; c < first.size(); ++c) for (size_t k = 0; k < first[c].size(); ++k) for (size_t j = 0; j < second[k].size(); ++j) r[c][j] = r[c][j] + second[k][j] * first[c][k];
  return r;
}
// input qubit `in` starts as |0>, output qubit `out` is projected on |0>
static std::vector<SV> ancM(const std::vector<SV> &u, unsigned in, unsigned out) {
  std::vector<SV> r;
  for (unsigned c = 0; c < u.size(); ++c) {
    if (c >> in & 1U) continue;
    SV v;
    for (unsigned k = 0; k < u[c].size(); ++k) if (!(k >> out & 1U)) v.push_back(u[c][k]);
    r.push_back(v);
  }
  return r;
}
static void small(qc::QuantumComputation &c, unsigned k) { // fixed small circuits on 2 or 3 qubits
  const unsigned n = (unsigned)c.getNqubits();
  switch (k) {
  case 0: break;
  case 1: c.h(0); c.cx(0, 1); c.t(1); break;
  case 2: c.rx(0.3, 1); c.cz(0, 1); c.ry(0.9, 0); break;
  case 3: c.swap(0, 1); c.rzz(0.7, 0, 1); c.sx(0); break;
  case 4: c.emplace_back(oSym(qc::RX, 0, "a")); c.cx(1, 0); c.emplace_back(oSym(qc::P, 1, "b", 2)); break;
  default: if (n > 2) { c.h(2); c.mcx({0, 2}, 1); c.cx(2, 0); } else { c.y(0); c.rxx(0.4, 0, 1); c.dcx(0, 1); } break;
  }
}
static unsigned pinAnc() { const unsigned a = pin("anc", 0, sym_tier() ? 4 : 3); return a == 3 && !sym_tier() ? 4 : a; }
HARNESS(zxCompose) { // adjoint, inversion, concatenation, ancillas, added qubits
  const unsigned n = pin("n", 2, 3);
  qc::QuantumComputation c1(n), c2(n);
  const unsigned k1 = pin("c1", n == 3 && !sym_tier() ? 5 : 0, 5), k2 = pin("c2", 0, 5);
  small(c1, k1); small(c2, k2);
  ZXDiagram d1 = FC::buildFunctionality(&c1), d2 = FC::buildFunctionality(&c2);
  auto u1 = wireU(c1), u2 = wireU(c2);
  const unsigned inv1 = pin("inv1", 0, 2), inv2 = pin("inv2", 0, 1);
  if (inv1 == 1) { const ZXDiagram e = d1.adjoint(); sameUpToScalar(u1, denote(d1), "adjoint changes the diagram"); d1 = e; u1 = adjM(u1); }
  if (inv1 == 2) { d1.invert(); u1 = adjM(u1); }
  if (inv2) { d2.invert(); u2 = adjM(u2); }
  const unsigned anc = pinAnc(), red = pin("reduce", 0, 2);
  if (red == 1) { zx::fullReduce(d1); zx::fullReduce(d2); }
  if (red == 2) { zx::spiderSimp(d1); zx::idSimp(d1); d2.toGraphlike(); zx::idSimp(d2); }
  unsigned nq = n;
  if (anc >= 1 && anc <= 3) {
    const unsigned in = pin("in", 0, n - 1), out = pin("out", 0, n - 1);
    if (anc == 1) { sym_assume(in == out); d1.makeAncilla((zx::Qubit)in); d2.makeAncilla((zx::Qubit)in); u1 = ancM(u1, in, in); u2 = ancM(u2, in, in); }
    if (anc == 2) { d1.makeAncilla((zx::Qubit)in, (zx::Qubit)out); d2.makeAncilla((zx::Qubit)out, (zx::Qubit)in); u1 = ancM(u1, in, out); u2 = ancM(u2, out, in); }
    if (anc == 3) { d1.makeAncilla((zx::Qubit)in, (zx::Qubit)out); d2.makeAncilla(0, (zx::Qubit)(n - 1)); u1 = ancM(u1, in, out); u2 = ancM(u2, 0, n - 1); }
    --nq;
  }
  if (anc == 4) { // a bare qubit that is then connected
    for (auto *d : {&d1, &d2}) { d->addQubit(); d->addEdge(d->getInput(n), d->getOutput(n)); }
    for (auto *u : {&u1, &u2}) {
      std::vector<SV> w(u->size() * 2, SV((*u)[0].size() * 2));
      for (size_t c = 0; c < w.size(); ++c) for (size_t r = 0; r < w[c].size(); ++r) if ((c >> n) == (r >> n)) w[c][r] = (*u)[c & ((1U << n) - 1)][r & ((1U << n) - 1)];
      *u = w;
    }
    ++nq;
  }
  sym_assert(d1.getNQubits() == nq && d1.getInputs().size() == nq && d1.getOutputs().size() == nq, "the number of qubits is wrong");
  sameUpToScalar(u1, denote(d1), "inversion or ancillas change the map in the wrong way");
  sameUpToScalar(u2, denote(d2), "inversion or ancillas change the map in the wrong way");
  if (k1 & 1U) d1 += d2; else d1.concat(d2);
  sameUpToScalar(u2, denote(d2), "concat changes its argument");
  const auto u = mulM(u2, u1);
  sameUpToScalar(u, denote(d1), "concatenation is not the product");
  sym_cover(anc == 4 ? "added" : anc ? "ancilla" : "plain");
  zx::fullReduce(d1);
  sameUpToScalar(u, denote(d1), "reducing a composed diagram changes the map");
  ZXDiagram other(nq + 1);
  bool threw = false;
  try { d1.concat(other); } catch (const zx::ZXException &) { threw = true; }
  sym_assert(threw, "diagrams with different numbers of qubits were concatenated");
}
// ------------------------------------------------------------ rewriting
static const char *kPass[] = {"toGraphlike", "spiderSimp", "idSimp", "localCompSimp", "pivotPauliSimp", "pivotSimp", "pivotgadgetSimp", "gadgetSimp", "interiorCliffordSimp", "cliffordSimp", "fullReduce", "removeDisconnectedSpiders", "fullReduceApproximate"};
static void pass(ZXDiagram &d, unsigned k) {
  switch (k) {
  case 0: d.toGraphlike(); break;
  case 1: zx::spiderSimp(d); break;
  case 2: zx::idSimp(d); break;
  case 3: zx::localCompSimp(d); break;
  case 4: zx::pivotPauliSimp(d); break;
  case 5: zx::pivotSimp(d); break;
  case 6: zx::pivotgadgetSimp(d); break;
  case 7: zx::gadgetSimp(d); break;
  case 8: zx::interiorCliffordSimp(d); break;
  case 9: zx::cliffordSimp(d); break;
  case 10: zx::fullReduce(d); break;
  case 11: d.removeDisconnectedSpiders(); break;
  default: zx::fullReduceApproximate(d, 1e-9); break;
  }
}
static void checkIdentity(const ZXDiagram &d, const std::vector<SV> &u) {
  if (!d.isIdentity()) return;
  std::vector<SV> id;
  for (unsigned x = 0; x < u.size(); ++x) { SV v(u.size()); v[x] = {1, 0}; id.push_back(v); }
  sameUpToScalar(id, u, "a diagram that is not the identity is reported as the identity");
  sym_cover("identity");
}
static void graphlike(const ZXDiagram &d) {
  for (const auto &[v, data] : d.getVertices()) sym_assert(data.type != VertexType::X, "an X spider remains in a graph-like diagram");
}
static Op passOp(unsigned k) {
  switch (k) {
  case 0: return o1(qc::H, 0);
  case 1: return o1(qc::T, 0);
  case 2: return oc(qc::X, {qc::Control{0}}, 1);
  case 3: return oc(qc::X, {qc::Control{1}}, 0);
  case 4: return oc(qc::Z, {qc::Control{0}}, 1);
  case 5: return o1(qc::S, 1);
  case 6: return o1(qc::H, 1);
  case 7: return oSym(qc::P, 1, "a");
  case 8: return o1(qc::X, 1);
  case 9: return oc(qc::P, {qc::Control{0}}, 1, {qc::PI_4});
  case 10: return o2(qc::RZZ, 0, 1, {0.3});
  case 11: return oSym(qc::RX, 0, "b");
  case 12: return o2(qc::SWAP, 0, 1);
  default: return o1(qc::RX, 0, {-qc::PI_2 + 1e-11});
  }
}
static void reduceCircuit(const qc::QuantumComputation &c, unsigned p, unsigned pre) {
  ZXDiagram d = FC::buildFunctionality(&c);
  const auto u = denote(d);
  sameUpToScalar(wireU(c), u, "the diagram of a circuit is not the circuit");
  if (pre == 1) d.toGraphlike();
  if (pre == 2) { zx::spiderSimp(d); d.toGraphlike(); zx::spiderSimp(d); zx::idSimp(d); }
  const size_t nv = d.getNVertices();
  (void)nv;
  pass(d, p);
  const auto w = denote(d);
  sameUpToScalar(u, w, "a simplification changes the map of a diagram");
  checkIdentity(d, w);
  if (p == 0 || p >= 10 ? p != 11 : false) graphlike(d);
}
HARNESS(zxPasses) { // every pass on diagrams of short circuits
  qc::QuantumComputation c(2);
  const unsigned p = pin("pass", 0, 12), pre = p ? pin("pre", 0, 2) : 0;
  sym_assume(pre != 0 || p <= 2 || p >= 10); // the other passes expect graph-like diagrams
  const unsigned len = sym_tier() ? 3 : 2;
  for (unsigned i = 0; i < len; ++i) c.emplace_back(passOp(pin("op", 0, 13)));
  reduceCircuit(c, p, pre);
  sym_cover(kPass[p]);
}
HARNESS(zxReduce) { // the full reductions on longer circuits
  qc::QuantumComputation c(2);
  const unsigned p = pin("pass", 9, 10);
  const unsigned len = sym_tier() ? 6 : 5;
  for (unsigned i = 0; i < len; ++i) c.emplace_back(passOp(pin("op", 0, sym_tier() ? 6 : 4)));
  reduceCircuit(c, p, p == 9 ? 2 : 0);
  sym_cover("reduced");
}
static Op op3(unsigned k) {
  switch (k) {
  case 0: return oc(qc::X, {qc::Control{0}, qc::Control{1}}, 2);
  case 1: return oc(qc::X, {qc::Control{2}}, 1);
  case 2: return o1(qc::H, 2);
  case 3: return oSym(qc::P, 0, "a");
  case 4: return oc(qc::P, {qc::Control{1}}, 2, {qc::PI_2});
  case 5: return o2(qc::RZZ, 0, 2, {0.3});
  case 6: return oc(qc::Z, {qc::Control{0}, qc::Control{2, NEG}}, 1);
  default: return o2(qc::RXX, 1, 2, {-0.8});
  }
}
HARNESS(zxReduce3) { // phase gadgets on three qubits
  qc::QuantumComputation c(3);
  const unsigned len = sym_tier() ? 4 : 3;
  for (unsigned i = 0; i < len; ++i) c.emplace_back(op3(pin("op", 0, 7)));
  reduceCircuit(c, 10, 0);
  sym_cover("reduced");
}
HARNESS(zxEquiv) { // equivalence checking: a circuit, its adjoint and a change
  qc::QuantumComputation c(2), e(2);
  const unsigned len = 2, at = pin("change", 0, 6);
  for (unsigned i = 0; i < len; ++i) { const unsigned k = pin("op", 0, 12); c.emplace_back(passOp(k)); e.emplace_back(passOp(k)); }
  if (at == 1) e.z(1);
  if (at == 2) e.cx(0, 1);
  if (at == 3) e.h(0);
  if (at == 4) e.swap(0, 1);
  if (at == 5) { e.h(0); e.z(0); e.h(0); c.x(0); }
  if (at == 6) e.emplace_back(oSym(qc::RZ, 0, "a"));
  ZXDiagram d = FC::buildFunctionality(&c), f = FC::buildFunctionality(&e);
  d.invert();
  f.concat(d);
  const auto u = mulM(adjM(wireU(c)), wireU(e));
  zx::fullReduce(f);
  sameUpToScalar(u, denote(f), "reducing a circuit and an adjoint changes the map");
  checkIdentity(f, u);
  if (at == 0 || at == 5) sym_cover("same");
}
static PiExpression ph(unsigned k, const char *var) {
  switch (k) {
  case 0: return PiExpression();
  case 1: return PiExpression(PiRational(1, 1));
  case 2: return PiExpression(PiRational(1, 2));
  case 3: return PiExpression(PiRational(-1, 2));
  case 4: return PiExpression(PiRational(1, 4));
  default: return PiExpression(PTerm(sym::Variable(var)));
  }
}
// attaches a boundary: 0 none, 1 simple, 2 Hadamard
struct Build {
  ZXDiagram d{0};
  std::vector<std::pair<Vertex, EdgeType>> bnd;
  Vertex spider(VertexType t, const PiExpression &p) { return d.addVertex(0, 0, p, t); }
};
static ZXDiagram withBoundaries(unsigned nb, const std::function<void(ZXDiagram &, const std::vector<Vertex> &)> &f) {
  // the first half of the wires are inputs: start from nb wires and cut them
  ZXDiagram d(nb);
  std::vector<Vertex> b;
  for (unsigned i = 0; i < nb; ++i) { d.removeEdge(d.getInput(i), d.getOutput(i)); b.push_back(d.getInput(i)); b.push_back(d.getOutput(i)); }
  f(d, b);
  return d;
}
static void rule(ZXDiagram &d, unsigned r, Vertex v0, Vertex v1) {
  bool app = false;
  switch (r) {
  case 0: if (zx::checkLocalComp(d, v0)) { zx::localComp(d, v0); app = true; } break;
  case 1: if (zx::checkPivotPauli(d, v0, v1)) { zx::pivotPauli(d, v0, v1); app = true; } break;
  case 2: if (zx::checkPivot(d, v0, v1)) { zx::pivot(d, v0, v1); app = true; } break;
  case 3: if (zx::checkPivotGadget(d, v0, v1)) { zx::pivotGadget(d, v0, v1); app = true; } break;
  case 4: app = zx::checkAndFuseGadget(d, v0); break;
  case 5: if (zx::checkIdSimp(d, v0)) { zx::removeId(d, v0); app = true; } break;
  default: if (zx::checkSpiderFusion(d, v0, v1)) { zx::fuseSpiders(d, v0, v1); app = true; } break;
  }
  if (app) { static const char *n[] = {"localComp", "pivotPauli", "pivot", "pivotGadget", "fuseGadget", "removeId", "fuseSpiders"}; sym_cover(n[r]); }
}
static unsigned pick3(unsigned k) { return k < 2 ? k : 5; }
HARNESS(zxRules) { // the rules on graph-like diagrams with 4 spiders
  const unsigned r = pin("rule", 0, 3);
  const unsigned p0 = r == 0 || sym_tier() ? pin("p0", 0, 5) : pick3(pin("p0", 0, 2));
  if (r == 0) sym_assume(p0 == 2 || p0 == 3 || p0 == 1); // others are covered by the checks failing
  const unsigned p1 = r == 0 ? 0 : sym_tier() ? pin("p1", 0, 5) : pick3(pin("p1", 0, 2)), p2 = sym_tier() ? pin("p2", 0, 2) * 2 : 2;
  unsigned e[6];
  for (unsigned i = 0; i < 6; ++i) e[i] = i == 0 ? (r == 0 ? pin("edge", 0, 1) : 1) : pin("edge", 0, 1);
  const unsigned b0 = pin("b0", 0, 2), b1 = pin("b1", 0, 2);
  auto d = withBoundaries(2, [&](ZXDiagram &g, const std::vector<Vertex> &b) {
    std::vector<Vertex> s;
    s.push_back(g.addVertex(0, 0, ph(p0, "a")));
    s.push_back(g.addVertex(0, 0, ph(p1, "b")));
    s.push_back(g.addVertex(0, 0, ph(p2, "c")));
    s.push_back(g.addVertex(0, 0, ph(5, "d")));
    unsigned k = 0;
    for (unsigned i = 0; i < 4; ++i) for (unsigned j = i + 1; j < 4; ++j, ++k) if (e[k]) g.addHadamardEdge(s[i], s[j]);
    g.addEdge(b[0], s[2]); g.addEdge(b[1], s[3], EdgeType::Hadamard);
    g.addEdge(b[2], b0 ? s[0] : s[2], b0 == 2 ? EdgeType::Hadamard : EdgeType::Simple);
    g.addEdge(b[3], b1 ? s[1] : s[3], b1 == 2 ? EdgeType::Hadamard : EdgeType::Simple);
  });
  const auto u = denote(d);
  rule(d, r, 4, 5);
  sameUpToScalar(u, denote(d), "a rule changes the map of a diagram");
}
HARNESS(zxGraphs) { // the reductions on arbitrary graph-like diagrams with 4 spiders
  static const unsigned few[] = {0, 2, 1, 5};
  const unsigned p = sym_tier() ? pin("pass", 8, 10) : 10;
  const unsigned p0 = few[pin("p0", 0, sym_tier() ? 3 : 2)], p1 = few[pin("p1", 0, 2)], p2 = pinB("p2") ? 4 : 0;
  unsigned e[6];
  for (unsigned i = 0; i < 6; ++i) e[i] = pin("edge", 0, 1);
  const unsigned b0 = pin("b0", 0, sym_tier() ? 2 : 1) * (sym_tier() ? 1 : 2), b1 = pin("b1", 0, sym_tier() ? 2 : 1);
  auto d = withBoundaries(2, [&](ZXDiagram &g, const std::vector<Vertex> &b) {
    std::vector<Vertex> s;
    s.push_back(g.addVertex(0, 0, ph(p0, "a")));
    s.push_back(g.addVertex(0, 0, ph(p1, "b")));
    s.push_back(g.addVertex(0, 0, ph(p2, "c")));
    s.push_back(g.addVertex(0, 0, ph(5, "d")));
    unsigned k = 0;
    for (unsigned i = 0; i < 4; ++i) for (unsigned j = i + 1; j < 4; ++j, ++k) if (e[k]) g.addHadamardEdge(s[i], s[j]);
    g.addEdge(b[0], s[2]); g.addEdge(b[1], s[3], EdgeType::Hadamard);
    g.addEdge(b[2], b0 ? s[0] : s[2], b0 == 2 ? EdgeType::Hadamard : EdgeType::Simple);
    g.addEdge(b[3], b1 ? s[1] : s[3], b1 == 2 ? EdgeType::Hadamard : EdgeType::Simple);
  });
  const auto u = denote(d);
  pass(d, p);
  const auto w = denote(d);
  sameUpToScalar(u, w, "reducing a diagram changes its map");
  checkIdentity(d, w);
  sym_cover(kPass[p]);
}
HARNESS(zxFuse) { // fusion, identities and graph-like form for both colours and edge types
  unsigned t[3], e[3];
  const unsigned extra = pin("extra", 0, 5), r = extra && !sym_tier() ? 2 : pin("rule", 0, 4);
  for (unsigned i = 0; i < 3; ++i) t[i] = pin("type", 0, 1);
  for (unsigned i = 0; i < 3; ++i) e[i] = pin("edge", 0, 2);
  const unsigned p0 = pin("p0", 0, sym_tier() ? 2 : 1), b = pin("bound", 0, sym_tier() ? 3 : 1);
  auto d = withBoundaries(1, [&](ZXDiagram &g, const std::vector<Vertex> &bv) {
    std::vector<Vertex> s;
    static const unsigned pk[] = {0, 1, 5};
    for (unsigned i = 0; i < 3; ++i) s.push_back(g.addVertex(0, 0, i == 0 ? ph(pk[p0], "a") : i == 1 ? ph(4, "b") : PiExpression(), t[i] ? VertexType::X : VertexType::Z));
    unsigned k = 0;
    for (unsigned i = 0; i < 3; ++i) for (unsigned j = i + 1; j < 3; ++j, ++k) if (e[k]) g.addEdge(s[i], s[j], e[k] == 2 ? EdgeType::Hadamard : EdgeType::Simple);
    g.addEdge(bv[0], s[b & 1U]);
    g.addEdge(bv[1], s[b >> 1U], EdgeType::Hadamard);
  });
  if (extra) { // one more edge, simplified if it is parallel to another one or a loop
    const auto v = d.getVertices();
    static const unsigned ex[5][3] = {{0, 1, 0}, {0, 1, 1}, {1, 2, 1}, {0, 0, 1}, {2, 0, 0}};
    const Vertex x = 2 + ex[extra - 1][0], y = 2 + ex[extra - 1][1];
    const EdgeType ty = ex[extra - 1][2] ? EdgeType::Hadamard : EdgeType::Simple;
    // reference: the edge through two fresh spiders without a phase
    ZXDiagram q = d;
    const Vertex f = q.addVertex(0), h = q.addVertex(0);
    q.addEdge(x, f, ty); q.addEdge(f, h); q.addEdge(h, y);
    d.addEdgeParallelAware(x, y, ty);
    sameUpToScalar(denote(q), denote(d), "a parallel edge is simplified incorrectly");
    sym_cover("parallel");
  }
  const auto u = denote(d);
  if (r == 0) rule(d, 5, 2, 3);
  if (r == 1) rule(d, 6, 2, 3);
  if (r == 2) d.toGraphlike();
  if (r == 3) zx::spiderSimp(d);
  if (r == 4) zx::fullReduce(d);
  sameUpToScalar(u, denote(d), "a rule changes the map of a diagram");
  if (r == 2) graphlike(d);
}
HARNESS(zxGadget) { // phase gadgets: hubs with leaves on shared targets
  const bool deep = sym_tier() != 0;
  const unsigned h0 = pin("hub0", 0, 2), h1 = pin("hub1", 0, 2), l0 = deep ? pin("leaf0", 0, 1) : h1 & 1U, l1 = deep ? pin("leaf1", 0, 2) : 1;
  const unsigned m0 = deep ? pin("targets0", 1, 7) : 1 + 2 * pin("targets0", 0, 3), m1 = pin("targets1", 0, 7);
  const unsigned et = pin("leafedge", 0, 3), dir = pin("direct", 0, 3), how = pin("how", 0, deep ? 2 : 1);
  static const unsigned pk[] = {0, 1, 4}, lk[] = {4, 5, 0};
  Vertex leaf0 = 0;
  auto d = withBoundaries(2, [&](ZXDiagram &g, const std::vector<Vertex> &b) {
    std::vector<Vertex> t;
    for (unsigned i = 0; i < 3; ++i) t.push_back(g.addVertex(0, 0, ph(i == 0 ? 0 : 4, "c")));
    g.addEdge(b[0], t[0]); g.addEdge(b[1], t[1]); g.addEdge(b[2], t[2]); g.addEdge(b[3], t[0], EdgeType::Hadamard);
    const Vertex hub0 = g.addVertex(0, 0, ph(pk[h0], "a"));
    leaf0 = g.addVertex(0, 0, ph(lk[l0], "a"));
    g.addEdge(hub0, leaf0, et == 1 ? EdgeType::Simple : EdgeType::Hadamard);
    for (unsigned i = 0; i < 3; ++i) if (m0 >> i & 1U) g.addHadamardEdge(t[i], hub0);
    if (m1) {
      const Vertex hub1 = g.addVertex(0, 0, ph(pk[h1], "a"));
      const Vertex leaf1 = g.addVertex(0, 0, ph(lk[l1], "b"));
      g.addEdge(hub1, leaf1, et == 2 ? EdgeType::Simple : EdgeType::Hadamard);
      if (et == 3) { const Vertex leaf2 = g.addVertex(0, 0, ph(4, "d")); g.addHadamardEdge(hub1, leaf2); }
      for (unsigned i = 0; i < 3; ++i) if (m1 >> i & 1U) g.addEdge(t[i], hub1, EdgeType::Hadamard);
    }
    if (dir == 1) { const Vertex w = g.addVertex(0, 0, PiExpression()); g.addHadamardEdge(hub0, w); g.addEdge(w, t[1]); }
    if (dir == 2) g.addHadamardEdge(t[0], t[1]);
    if (dir == 3) { g.removeEdge(b[3], t[0]); g.addEdge(b[3], hub0, EdgeType::Hadamard); }
  });
  const auto u = denote(d);
  if (how == 0) rule(d, 4, leaf0, 0);
  if (how == 1) zx::gadgetSimp(d);
  if (how == 2) zx::fullReduce(d);
  sameUpToScalar(u, denote(d), "fusing gadgets changes the map of a diagram");
  sym_cover("gadget");
}
HARNESS(zxIsIdentity) { // wires, crossings, Hadamard wires and spiders
  const unsigned k = pin("kind", 0, 7);
  ZXDiagram d(2);
  auto cut = [&](unsigned i) { d.removeEdge(d.getInput(i), d.getOutput(i)); };
  if (k == 1) { cut(0); d.addHadamardEdge(d.getInput(0), d.getOutput(0)); }
  if (k == 2) { cut(0); cut(1); d.addEdge(d.getInput(0), d.getOutput(1)); d.addEdge(d.getInput(1), d.getOutput(0)); }
  if (k == 3) { cut(0); const auto v = d.addVertex(0, 0, PiExpression(PiRational(1, 2))); d.addEdge(d.getInput(0), v); d.addEdge(v, d.getOutput(0)); }
  if (k == 4) d.addGlobalPhase(PiExpression(PiRational(1, 2)));
  if (k == 5) { cut(0); cut(1); d.addHadamardEdge(d.getInput(0), d.getOutput(0)); d.addHadamardEdge(d.getInput(1), d.getOutput(1)); }
  if (k == 6) d.makeAncilla(0);
  if (k == 7) d.addVertex(0, 0, PiExpression(PiRational(1, 2)));
  const auto u = denote(d);
  checkIdentity(d, u);
  if (k == 0) sym_assert(d.isIdentity(), "the identity diagram is not the identity");
  sym_cover("checked");
}
// ------------------------------------------------------------ rational multiples of pi
struct Frac { int64_t n, d; };
static Frac canon(int64_t n, int64_t d) { // reduced, in (-1, 1]
  if (d < 0) { n = -n; d = -d; }
  n %= 2 * d;
  if (n > d) n -= 2 * d;
  if (n <= -d) n += 2 * d;
  const int64_t g = std::gcd(n < 0 ? -n : n, d);
  return {n / g, d / g};
}
static void isFrac(const PiRational &x, int64_t n, int64_t d, const char *msg) {
  const Frac f = canon(n, d);
  sym_assert(x.getNum() == f.n && x.getDenom() == f.d, msg);
  sym_assert(std::fabs(x.toDouble() - qc::PI * (double)f.n / (double)f.d) < 1e-12 && std::fabs(double(x) - x.toDouble()) == 0, "the value of a fraction is wrong");
  sym_assert(std::fabs(x.toDoubleDivPi() - (double)f.n / (double)f.d) < 1e-14, "the value of a fraction is wrong");
  sym_assert(x.isZero() == (f.n == 0) && x.isInteger() == (f.d == 1), "the kind of a fraction is wrong");
  sym_assert((x == f.n) == (f.d == 1) && (f.n == x) == (f.d == 1) && (x != f.n) == (f.d != 1) && (f.n != x) == (f.d != 1), "comparing a fraction with an integer is wrong");
  const PiExpression e(x);
  sym_assert(zx::isPauli(e) == (f.d == 1) && zx::isClifford(e) == (f.d <= 2) && zx::isProperClifford(e) == (f.d == 2), "a phase is classified incorrectly");
  const PiExpression s = e + PTerm(sym::Variable("a"));
  sym_assert(!zx::isPauli(s) && !zx::isClifford(s) && !zx::isProperClifford(s), "a symbolic phase is classified as a number");
}
static const int64_t kDen[] = {1, 2, 3, 4, 7, 1000000007LL};
HARNESS(zxRational) { // arithmetic and comparisons of multiples of pi
  const unsigned deep = sym_tier() ? 5 : 3;
  const int64_t n1 = (int64_t)pin("n1", 0, 10) - 5, d1 = kDen[pin("d1", 0, deep)] * (pinB("negative") ? -1 : 1);
  const int64_t n2 = (int64_t)pin("n2", 0, 10) - 5, d2 = kDen[pin("d2", 0, deep)];
  const PiRational a(n1, d1), b(n2, d2);
  isFrac(a, n1, d1, "a fraction is not reduced to (-1, 1]");
  const Frac x = canon(n1, d1), y = canon(n2, d2);
  isFrac(-a, -x.n, x.d, "the negative of a fraction is wrong");
  isFrac(a + b, x.n * y.d + y.n * x.d, x.d * y.d, "a sum of fractions is wrong");
  isFrac(a - b, x.n * y.d - y.n * x.d, x.d * y.d, "a difference of fractions is wrong");
  isFrac(a * b, x.n * y.n, x.d * y.d, "a product of fractions is wrong");
  if (y.n != 0) isFrac(a / b, x.n * y.d, x.d * y.n, "a quotient of fractions is wrong");
  PiRational c = a; c += c; isFrac(c, 2 * x.n, x.d, "adding a fraction to itself is wrong");
  c = a; c -= c; isFrac(c, 0, 1, "subtracting a fraction from itself is wrong");
  c = a; c *= c; isFrac(c, x.n * x.n, x.d * x.d, "squaring a fraction is wrong");
  const int64_t k = n2 == 5 ? 4000000001LL : n2;
  isFrac(a + k, x.n + k * x.d, x.d, "adding an integer is wrong"); isFrac(k + a, x.n + k * x.d, x.d, "adding to an integer is wrong");
  isFrac(a - k, x.n - k * x.d, x.d, "subtracting an integer is wrong");
  isFrac(a * k, x.n * (k % (2 * x.d)), x.d, "multiplying by an integer is wrong"); isFrac(k * a, x.n * (k % (2 * x.d)), x.d, "multiplying an integer is wrong");
  if (k) isFrac(a / k, x.n, x.d * k, "dividing by an integer is wrong");
  const Frac kk = canon(k, 1);
  isFrac(k - a, kk.n * x.d - x.n, x.d, "subtracting from an integer is wrong");
  if (x.n) isFrac(k / a, k * x.d, x.n, "dividing an integer is wrong");
  isFrac(PiRational(k), k, 1, "an integer is not reduced to (-1, 1]");
  const int64_t l = x.n * y.d, r = y.n * x.d;
  sym_assert((a < b) == (l < r) && (a <= b) == (l <= r) && (a > b) == (l > r) && (a >= b) == (l >= r) && (a == b) == (l == r) && (a != b) == (l != r), "comparing fractions is wrong");
  sym_assert((a < n2) == (x.n < n2 * x.d) && (a <= n2) == (x.n <= n2 * x.d) && (a > n2) == (x.n > n2 * x.d) && (a >= n2) == (x.n >= n2 * x.d), "comparing a fraction with an integer is wrong");
  sym_assert((n2 < a) == (n2 * x.d < x.n) && (n2 <= a) == (n2 * x.d <= x.n) && (n2 > a) == (n2 * x.d > x.n) && (n2 >= a) == (n2 * x.d >= x.n), "comparing an integer with a fraction is wrong");
  sym_cover("fraction");
}
HARNESS(zxRound) { // rounding to multiples of pi/2
  static const double tols[] = {1e-9, 1e-4, 0.1};
  const double tol = tols[pin("tolerance", 0, 2)];
  const int64_t m = (int64_t)pin("multiple", 0, 4) - 2, off = (int64_t)pin("off", 0, 6) - 3;
  static const int64_t kOff[] = {0, 1, 5000, 5000000};
  const int64_t den = 20000000, num = m * den / 2 + (off < 0 ? -1 : 1) * kOff[off < 0 ? -off : off] * 1000 / 1000;
  const bool symbolic = pinB("symbolic");
  PiExpression e{PiRational(num, den)};
  if (symbolic) e += PTerm(sym::Variable("a"), 0.5);
  const PiExpression before = e;
  const double d = (double)kOff[off < 0 ? -off : off] / (double)den; // distance to the multiple, in pi
  sym_assume(std::fabs(d - tol) > 1e-12);
  zx::roundToClifford(e, tol);
  ZXDiagram g(1);
  const Vertex v = g.addVertex(0, 0, before);
  g.approximateCliffords(tol);
  sym_assert(g.phase(v) == e, "the phases of a diagram are not rounded like phases");
  if (symbolic || d > tol) sym_assert(e == before, "a phase that is not close to a multiple of pi/2 is changed");
  else isFrac(e.getConst(), m, 2, "a phase close to a multiple of pi/2 is not rounded to it");
  sym_cover(d > tol ? "kept" : "rounded");
}
// ------------------------------------------------------------ the graph
struct GModel {
  struct V { VertexType t; int64_t ph; bool bnd; }; // phase in units of pi/4
  std::map<Vertex, V> vs;
  std::vector<std::tuple<Vertex, Vertex, EdgeType>> es;
  std::vector<Vertex> in, out;
};
static void checkGraph(const ZXDiagram &d, const GModel &m) {
  sym_assert(d.getNVertices() == m.vs.size(), "the number of vertices is wrong");
  sym_assert(d.getNEdges() == m.es.size(), "the number of edges is wrong");
  sym_assert(d.getInputs() == m.in && d.getOutputs() == m.out && d.getNQubits() == m.in.size(), "the inputs or outputs are wrong");
  const auto verts = d.getVertices();
  sym_assert(verts.size() == m.vs.size(), "iterating over the vertices is wrong");
  auto it = m.vs.begin();
  for (const auto &[v, data] : verts) {
    sym_assert(it != m.vs.end() && it->first == v && data.type == it->second.t && data.phase == PiExpression(PiRational(it->second.ph, 4)), "iterating over the vertices is wrong");
    ++it;
  }
  auto es = d.getEdges();
  std::vector<std::pair<Vertex, Vertex>> want;
  for (auto &[a, b, t] : m.es) want.push_back({std::min(a, b), std::max(a, b)});
  for (auto &e : es) sym_assert(e.first < e.second, "iterating over the edges is wrong");
  std::sort(es.begin(), es.end()); std::sort(want.begin(), want.end());
  sym_assert(es == want, "iterating over the edges is wrong");
  const auto adj = d.getAdjMat();
  for (auto &[v, data] : m.vs) {
    sym_assert(!d.isDeleted(v) && d.getVData(v).has_value() && d.type(v) == data.t && d.isBoundaryVertex(v) == data.bnd, "the data of a vertex is wrong");
    sym_assert(d.isInput(v) == (std::count(m.in.begin(), m.in.end(), v) > 0) && d.isOutput(v) == (std::count(m.out.begin(), m.out.end(), v) > 0), "a boundary is classified incorrectly");
    sym_assert(adj.size() > v && adj[v].size() > v, "the adjacency matrix is too small");
    std::vector<std::pair<Vertex, EdgeType>> inc, got;
    for (auto &[a, b, t] : m.es) { if (a == v) inc.push_back({b, t}); if (b == v) inc.push_back({a, t}); }
    for (const auto &e : d.incidentEdges(v)) got.push_back({e.to, e.type});
    std::sort(inc.begin(), inc.end()); std::sort(got.begin(), got.end());
    sym_assert(inc == got && d.degree(v) == inc.size(), "the edges of a vertex are wrong");
    std::vector<Vertex> nb;
    for (auto &[w, t] : inc) if (nb.empty() || nb.back() != w) nb.push_back(w);
    sym_assert(d.getConnectedSet({v}) == nb, "the neighbours of a vertex are wrong");
    for (auto &[w, _] : m.vs) {
      const bool has = std::count(nb.begin(), nb.end(), w) > 0;
      sym_assert(d.connected(v, w) == has && d.getEdge(v, w).has_value() == has, "an edge is missing or invented");
      sym_assert(adj[v].size() > w && adj[v][w] == (has || v == w), "the adjacency matrix is wrong");
      sym_assert(ZXDiagram::isIn(w, nb) == has, "isIn is wrong");
      std::vector<Vertex> un = nb, ex;
      for (auto &[a, b, t] : m.es) { if (a == w) un.push_back(b); if (b == w) un.push_back(a); }
      std::sort(un.begin(), un.end()); un.erase(std::unique(un.begin(), un.end()), un.end());
      sym_assert(d.getConnectedSet({v, w}) == un, "the neighbours of a set are wrong");
      for (auto u : un) if (u != v && u != w) ex.push_back(u);
      sym_assert(d.getConnectedSet({v, w}, {v, w}) == ex, "the neighbours of a set are wrong");
    }
  }
}
HARNESS(zxGraph) { // the bookkeeping of vertices and edges against a model
  GModel m;
  ZXDiagram d;
  const unsigned start = pin("start", 0, sym_tier() ? 2 : 1);
  if (start) {
    d = ZXDiagram(start);
    m.in = d.getInputs(); m.out = d.getOutputs();
    for (unsigned q = 0; q < start; ++q) { m.vs[m.in[q]] = {VertexType::Boundary, 0, true}; m.vs[m.out[q]] = {VertexType::Boundary, 0, true}; m.es.emplace_back(m.in[q], m.out[q], EdgeType::Simple); sym_assert(d.qubit(m.in[q]) == (zx::Qubit)q && d.qubit(m.out[q]) == (zx::Qubit)q, "the wires are not numbered consecutively"); }
  }
  checkGraph(d, m);
  const unsigned len = sym_tier() ? 5 : 4;
  unsigned made = 0;
  auto choose = [&](const char *n) { auto it = m.vs.begin(); std::advance(it, pin(n, 0, (unsigned)m.vs.size() - 1)); return it->first; };
  for (unsigned i = 0; i < len; ++i) {
    const unsigned op = pin("op", 0, 6);
    if (op == 0) {
      const VertexType t = made & 1U ? VertexType::X : VertexType::Z;
      const Vertex v = d.addVertex(0, 0, PiExpression(PiRational(made, 4)), t);
      sym_assert(m.vs.count(v) == 0, "a new vertex has the index of another one");
      m.vs[v] = {t, made, false};
      ++made;
    } else if (op == 5) {
      d.addQubit();
      const Vertex a = d.getInputs().back(), b = d.getOutputs().back();
      sym_assert(a != b && m.vs.count(a) == 0 && m.vs.count(b) == 0 && d.qubit(a) == (zx::Qubit)m.in.size() && d.qubit(b) == (zx::Qubit)m.in.size(), "a new wire has wrong vertices");
      m.vs[a] = {VertexType::Boundary, 0, true}; m.vs[b] = {VertexType::Boundary, 0, true}; m.in.push_back(a); m.out.push_back(b);
    } else {
      sym_assume(!m.vs.empty());
      const Vertex v = choose("v");
      if (op <= 3) {
        const Vertex w = choose("w");
        sym_assume(sym_tier() ? v != w : op == 3 && (i & 1U) ? v > w : v < w);
        sym_assume(op != 2 || (i & 1U) || sym_tier());
        if (op == 3) { d.removeEdge(v, w); m.es.erase(std::remove_if(m.es.begin(), m.es.end(), [&](auto &e) { return (std::get<0>(e) == v && std::get<1>(e) == w) || (std::get<0>(e) == w && std::get<1>(e) == v); }), m.es.end()); sym_cover("removed"); }
        else { const EdgeType t = op == 1 ? EdgeType::Simple : EdgeType::Hadamard; if (op == 1) d.addEdge(v, w); else d.addHadamardEdge(v, w); m.es.emplace_back(v, w, t); }
      } else if (op == 4) {
        sym_assume(!m.vs[v].bnd);
        if (made & 1U) d.addEdge(v, v);
        d.removeVertex(v);
        sym_assert(d.isDeleted(v) && d.getNdeleted() > 0 && !d.getVData(v).has_value(), "a vertex is not deleted");
        m.vs.erase(v);
        m.es.erase(std::remove_if(m.es.begin(), m.es.end(), [&](auto &e) { return std::get<0>(e) == v || std::get<1>(e) == v; }), m.es.end());
        sym_cover("deleted");
      } else {
        sym_assume(!m.vs[v].bnd);
        if (made & 1U) { d.addPhase(v, PiExpression(PiRational(3, 4))); m.vs[v].ph += 3; } else { d.setPhase(v, PiExpression(PiRational(-1, 4))); m.vs[v].ph = -1; }
        m.vs[v].t = m.vs[v].t == VertexType::X ? VertexType::Z : VertexType::X;
        d.setType(v, m.vs[v].t);
      }
    }
  }
  checkGraph(d, m);
  const ZXDiagram copy = d;
  checkGraph(copy, m);
  d.removeDisconnectedSpiders();
  // spiders without a path to a boundary disappear
  std::vector<Vertex> reach;
  for (auto v : m.in) reach.push_back(v);
  for (auto v : m.out) reach.push_back(v);
  for (size_t i = 0; i < reach.size(); ++i) for (auto &[a, b, t] : m.es) { if (a == reach[i] && !ZXDiagram::isIn(b, reach)) reach.push_back(b); if (b == reach[i] && !ZXDiagram::isIn(a, reach)) reach.push_back(a); }
  for (auto it = m.vs.begin(); it != m.vs.end();) if (!ZXDiagram::isIn(it->first, reach)) it = m.vs.erase(it); else ++it;
  m.es.erase(std::remove_if(m.es.begin(), m.es.end(), [&](auto &e) { return m.vs.count(std::get<0>(e)) == 0; }), m.es.end());
  checkGraph(d, m);
  sym_cover("graph");
}
HARNESS(zxIterators) { // iterating forwards, with both increments
  std::vector<std::optional<zx::VertexData>> vs;
  std::vector<std::vector<zx::Edge>> es;
  const unsigned n = pin("n", 0, 4);
  std::vector<Vertex> wantV; std::vector<std::pair<Vertex, Vertex>> wantE;
  std::vector<bool> live;
  for (unsigned i = 0; i < n; ++i) { live.push_back(!pinB("deleted")); es.emplace_back(); if (live[i]) { vs.emplace_back(zx::VertexData{0, 0, PiExpression(), VertexType::Z}); wantV.push_back(i); } else vs.emplace_back(); }
  for (unsigned i = 0; i < n; ++i) for (unsigned j = i + 1; j < n; ++j) if (live[i] && live[j] && pinB("edge")) { es[i].emplace_back(j, EdgeType::Simple); es[j].emplace_back(i, EdgeType::Simple); wantE.push_back({i, j}); }
  zx::Vertices V(vs);
  zx::Edges E(es, vs);
  const bool post = pinB("post");
  size_t k = 0;
  for (auto it = V.begin(); it != V.end(); ++k) {
    sym_assert(k < wantV.size() && (*it).first == wantV[k], "iterating over the vertices is wrong");
    if (post) { const auto old = it++; sym_assert((*old).first == wantV[k], "a postfix increment does not return the old position"); }
    else { const auto now = ++it; sym_assert(now == it, "a prefix increment does not return the new position"); }
  }
  sym_assert(k == wantV.size(), "iterating over the vertices is wrong");
  k = 0;
  for (auto it = E.begin(); it != E.end(); ++k) {
    sym_assert(k < wantE.size() && *it == wantE[k], "iterating over the edges is wrong");
    if (post) { const auto old = it++; sym_assert(*old == wantE[k], "a postfix increment does not return the old position"); }
    else { const auto now = ++it; sym_assert(now == it, "a prefix increment does not return the new position"); }
  }
  sym_assert(k == wantE.size(), "iterating over the edges is wrong");
  sym_cover("iterated");
}
