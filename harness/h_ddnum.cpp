// Numbers and complex values: the real-number table with symbolic reals.
#include "ddgen.h"
#include <set>
#include "dd/RealNumberUniqueTable.hpp"
using dd::RealNumber;
static const double kTol = 1.0 / (1 << 19); // an eighth of a bucket, so that all borders are within reach of small differences
struct Seen { RealNumber *p; double v; };
static double pickNumber(unsigned region, const char *nm) {
  const double w = 1.0 / 65536;
  switch (region) {
  case 0: return sym_real(nm, 1000.1 * w, 1000.9 * w); // one border inside
  case 1: return sym_real(nm, 32767.6 * w, 32768.4 * w); // around 1/2, which is always there
  case 2: return sym_real(nm, 65534.6 * w, 65535.6 * w); // around 1 and above
  case 3: return sym_real(nm, 0, 0.8 * w); // around 0
  case 4: return sym_real(nm, 46340.4 * w, 46341.2 * w); // around sqrt(1/2)
  default: return sym_real(nm, 2 - w, 2 + w); // all in the last bucket
  }
}
// pointers handed out stand for the nearest known number, and only unknown numbers are added
static RealNumber *look(dd::RealNumberUniqueTable &t, std::vector<Seen> &known, double x, bool neg) {
  const auto before = t.getStats().numEntries;
  bool close = false;
  for (auto &s : known) close = s_or(close, s_and(s.v - x <= kTol, x - s.v <= kTol));
  RealNumber *r = t.lookup(neg ? -x : x);
  RealNumber *a = RealNumber::getAlignedPointer(r);
  const double v = RealNumber::val(r);
  const double diff = neg ? v + x : v - x;
  sym_assert(s_and(diff <= kTol, -diff <= kTol), "the number found is further away than the tolerance");
  bool old = false;
  for (auto &s : known) old = old || s.p == a;
  if (close) { sym_assert(old && t.getStats().numEntries == before, "a number within the tolerance of a known one gets an entry of its own"); sym_cover("found"); }
  else {
    sym_assert(!old && t.getStats().numEntries == before + 1 && a->value == x, "a new number is not added as it is");
    known.push_back({a, x});
    sym_cover("added");
  }
  return r;
}
static std::vector<Seen> statics(dd::RealNumberUniqueTable &t) {
  std::vector<Seen> k{{&dd::constants::zero, 0}, {&dd::constants::one, 1}, {&dd::constants::sqrt2over2, dd::SQRT2_2}};
  k.push_back({t.lookup(0.5), 0.5});
  return k;
}
HARNESS(ddNumbers) {
  sym_real_mode(); sym_split_ints();
  dd::ComplexNumbers::setTolerance(kTol);
  dd::MemoryManager mm{dd::MemoryManager::create<RealNumber>(8)};
  dd::RealNumberUniqueTable t(mm);
  auto known = statics(t);
  const unsigned region = pin("region", 0, 5), count = sym_tier() ? 4 : 3;
  for (unsigned i = 0; i < count; ++i) {
    const double x = pickNumber(region, "x");
    look(t, known, x, i == 0 && pinB("negative"));
  }
  // every known number is found again as itself, with either sign
  for (size_t i = 0; i < known.size(); ++i) {
    sym_assert(t.lookup(known[i].v) == known[i].p, "a known number is not found again");
    sym_assert(t.lookup(-known[i].v) == (i ? RealNumber::getNegativePointer(known[i].p) : known[i].p), "a known negative number is not found again");
  }
  sym_assert(RealNumber::val(t.lookup(-known.back().v)) == -known.back().v, "negative pointers do not stand for the negative number");
}
HARNESS(ddNumbersGC) { // a collection removes exactly the numbers that are not referenced
  sym_real_mode(); sym_split_ints();
  dd::ComplexNumbers::setTolerance(kTol);
  dd::MemoryManager mm{dd::MemoryManager::create<RealNumber>(4)};
  dd::RealNumberUniqueTable t(mm);
  auto known = statics(t);
  const unsigned region = pin("region", 0, 2) == 2 ? 5 : pin("border", 0, 1), count = sym_tier() ? 3 : 2;
  std::vector<unsigned> refs(known.size(), 1);
  for (unsigned i = 0; i < count; ++i) {
    RealNumber *r = look(t, known, pickNumber(region, "x"), false);
    if (refs.size() < known.size()) refs.push_back(0);
    if (pinB("hold")) for (size_t k = 0; k < known.size(); ++k) if (known[k].p == r) { t.incRef(r); ++refs[k]; }
  }
  for (size_t k = 4; k < known.size(); ++k) if (refs[k] && pinB("release")) { t.decRef(known[k].p); --refs[k]; }
  t.garbageCollect(true);
  std::vector<Seen> left;
  for (size_t k = 0; k < known.size(); ++k) if (k < 4 || refs[k]) left.push_back(known[k]);
  sym_assert(t.getStats().numEntries == left.size() - 3, "a collection does not leave exactly the referenced numbers");
  for (size_t k = 0; k < left.size(); ++k) sym_assert(t.lookup(left[k].v) == left[k].p && RealNumber::val(left[k].p) == left[k].v, "a referenced number is lost in a collection");
  sym_assert(t.getStats().numEntries == left.size() - 3, "looking up known numbers adds entries");
  look(t, left, pickNumber(region, "x"), false);
  for (auto &s : left) sym_assert(t.lookup(s.v) == s.p && RealNumber::val(s.p) == s.v, "a number changes when another one is added after a collection");
  sym_cover("collected");
}
static dd::ComplexValue cvs(const char *nm) { const double a = sym_real(nm, -2, 2), b = sym_real(nm, -2, 2); return {a, b}; }
HARNESS(ddComplex) { // arithmetic on complex values and on pairs of table entries
  sym_real_mode(); sym_split_ints();
  const dd::ComplexValue a = cvs("a"), b = cvs("b");
  const auto is = [](const dd::ComplexValue &x, double r, double i, const char *m) { sym_assert(x.r == r && x.i == i, m); };
  switch (pin("what", 0, 4)) {
  case 0: is(a + b, a.r + b.r, a.i + b.i, "complex sum"); { auto c = a; c += b; is(c, a.r + b.r, a.i + b.i, "complex sum in place"); } break;
  case 1: is(a * b, a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r, "complex product"); break;
  case 2: { sym_assume(b.r * b.r + b.i * b.i >= 1e-3); const auto q = a / b; is(q * b, a.r, a.i, "complex quotient"); break; }
  case 3: is(a * b.r, a.r * b.r, a.i * b.r, "scaled complex value"); is(b.r * a, a.r * b.r, a.i * b.r, "scaled complex value"); { auto c = a; c *= b.r; is(c, a.r * b.r, a.i * b.r, "scaled in place"); } break;
  default: sym_assume(b.r > 0.1); is(a / b.r, a.r / b.r, a.i / b.r, "divided complex value"); sym_assert(a.mag2() == a.r * a.r + a.i * a.i, "squared magnitude");
    sym_assert((a == b) == (a.r == b.r && a.i == b.i) && (a != b) == !(a == b), "comparison of complex values");
  }
  sym_cover("arithmetic");
}
// ---------------------------------------------------------------- functions
template <class N> static void sane(const dd::Edge<N> &e, std::set<const N *> &seen, std::vector<const N *> &all) {
  if (e.isTerminal() || !seen.insert(e.p).second) return;
  for (auto *o : all) {
    if (o->v != e.p->v) continue;
    bool same = true;
    for (size_t k = 0; k < e.p->e.size(); ++k) same = same && o->e[k] == e.p->e[k];
    sym_assert(!same, "two nodes with the same successors");
  }
  all.push_back(e.p);
  bool zero = true, one = false;
  for (auto &c : e.p->e) {
    zero = zero && c.w.exactlyZero();
    one = one || c.w.exactlyOne();
    sym_assert(!c.w.exactlyZero() || c.isTerminal(), "a zero edge leads to a node");
    sym_assert(c.isTerminal() || c.p->v < e.p->v, "an edge leads upwards");
    sane(c, seen, all);
  }
  sym_assert(!zero, "a node of zeros");
}
template <class N> static void sane(const dd::Edge<N> &e) { std::set<const N *> s; std::vector<const N *> a; sane(e, s, a); sym_assert(e.size() == s.size() + 1, "size() does not count the nodes and the terminal"); }
HARNESS(ddCanonM) { // equal matrices are the same edge, however they come about
  const unsigned n = sym_tier() ? pin("n", 1, 3) : pin("n", 2, 2);
  const DM a = anyM(n), b = anyM(n);
  dd::Package p(n, smallCfg());
  const auto ea = p.makeDDFromMatrix(cmat(a)), eb = p.makeDDFromMatrix(cmat(b));
  dd::mEdge r;
  switch (pin("how", 0, 6)) {
  case 0: r = ea; break;
  case 1: r = p.add(ea, eb); break;
  case 2: r = p.multiply(ea, eb); break;
  case 3: r = p.conjugateTranspose(ea); break;
  case 4: sym_assert(p.add(ea, eb) == p.add(eb, ea), "a + b is not b + a"); r = p.multiply(p.conjugateTranspose(ea), eb); break;
  case 5: r = p.multiply(ea, p.makeIdent()); sym_assert(r == ea && p.multiply(p.makeIdent(), ea) == ea, "multiplying with the identity gives another edge"); break;
  default: sym_assert(p.add(ea, dd::mEdge::zero()) == ea && p.multiply(ea, dd::mEdge::zero()) == dd::mEdge::zero(), "zero is not neutral or absorbing"); r = p.add(ea, ea);
  }
  sane(r);
  sym_assert(r == p.makeDDFromMatrix(cmat(dense(r, n))), "equal matrices have different decision diagrams");
  const DM d = dense(r, n);
  const bool zero = nearM(d, zeroM(n), 1e-12);
  sym_assert(r.isIdentity(false) == nearM(d, identM(n), 1e-12) && (zero ? !r.isIdentity(true) : r.isIdentity(true) == nearM(d, times(d[0][0], identM(n)), 1e-12)), "isIdentity does not tell the identity");
  sym_cover("matrix");
}
HARNESS(ddCanonV) {
  const unsigned n = sym_tier() ? pin("n", 1, 4) : pin("n", 1, 3);
  const SV a = anyV(n), b = anyV(n);
  dd::Package p(n, smallCfg());
  const auto ea = p.makeStateFromVector(cvec(a)), eb = p.makeStateFromVector(cvec(b));
  dd::vEdge r;
  switch (pin("how", 0, 4)) {
  case 0: r = ea; break;
  case 1: r = p.add(ea, eb); sym_assert(r == p.add(eb, ea), "a + b is not b + a"); break;
  case 2: r = p.conjugate(ea); break;
  case 3: r = p.multiply(p.makeIdent(), ea); sym_assert(r == ea, "multiplying with the identity gives another edge"); break;
  default: { const DM m = opM(refGate(RX, {0.7}), {pinQ("q", n)}, n); r = p.multiply(p.makeDDFromMatrix(cmat(m)), ea); }
  }
  sane(r);
  sym_assert(r == p.makeStateFromVector(cvec(dense(r, n))), "equal vectors have different decision diagrams");
  sym_cover("vector");
}
HARNESS(ddInverse) { // a circuit followed by its inverse is the identity edge; equivalent circuits give the same edge
  QuantumComputation c(3);
  const unsigned len = sym_tier() ? 4 : 3;
  for (unsigned i = 0; i < len; ++i) switch (pin("op", 0, 9)) {
    case 0: c.h(pinQ("q", 3)); break;
    case 1: c.cx(0, 2); break;
    case 2: c.cx(Control{1, Control::Type::Neg}, 0); break;
    case 3: c.t(2); break;
    case 4: c.ry(0.3, 1); break;
    case 5: c.iswap(0, 1); break;
    case 6: c.swap(1, 2); break;
    case 7: c.rzz(0.4, 0, 2); break;
    case 8: c.mcp(0.9, {0, 1}, 2); break;
    default: c.u(0.1, 0.2, 0.3, 0);
    }
  dd::Package p(3, smallCfg());
  const auto f = dd::buildFunctionality(c, p);
  QuantumComputation d = c;
  d.invert();
  const auto g = dd::buildFunctionality(d, p);
  sym_assert(g == p.conjugateTranspose(f), "the inverse circuit is another edge than the adjoint");
  const auto id = p.multiply(g, f);
  sym_assert(id.isIdentity(false) && std::abs(static_cast<std::complex<double>>(id.w) - 1.) < 1e-12 && p.isCloseToIdentity(id), "a circuit and its inverse do not multiply to the identity");
  sane(f);
  sym_cover("circuit");
}
