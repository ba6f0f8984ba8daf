// The textual circuit diagram: one column per qubit, one row per operation.
#include "sem.h"
#include "ir/operations/ClassicControlledOperation.hpp"
#include <cstdlib>
#include <sstream>
using namespace qc;
struct Cell { std::string text, colour; };
// one line: optional prefix up to and including ':', then columns of four
// visible characters, then the rest
static std::vector<std::string> linesOf(const std::string &s) {
  std::vector<std::string> r; std::string c;
  for (char x : s) if (x == '\n') { r.push_back(c); c.clear(); } else c.push_back(x);
  if (!c.empty()) r.push_back(c);
  return r;
}
static bool parseRow(const std::string &l, bool prefix, unsigned cols, std::string &pre, std::vector<Cell> &cells, std::string &rest) {
  size_t i = 0; pre.clear(); cells.clear(); rest.clear();
  if (prefix) { while (i < l.size() && l[i] != ':') pre.push_back(l[i++]); if (i == l.size()) return false; ++i; }
  std::string colour;
  for (unsigned k = 0; k < cols; ++k) {
    Cell c;
    unsigned seen = 0;
    while (seen < 4) {
      if (i >= l.size()) return false;
      if (l[i] == '\033') { std::string e; while (i < l.size() && l[i] != 'm') e.push_back(l[i++]); ++i; if (e == "\033[0") colour.clear(); else colour += e.substr(1); continue; }
      if (l[i] != ' ') { c.text.push_back(l[i]); c.colour = colour; } else if (!c.text.empty()) return false;
      ++i; ++seen;
    }
    cells.push_back(c);
  }
  for (; i < l.size(); ++i) { if (l[i] == '\033') { while (i < l.size() && l[i] != 'm') ++i; continue; } rest.push_back(l[i]); }
  return true;
}
static const OpType kT1[] = {H, X, S, Sdg, T, V, SX, SXdg, RX, P, U2, U};
static const OpType kT2[] = {SWAP, iSWAP, DCX, ECR, RZZ, XXplusYY, Peres};
struct Pool { std::vector<Qubit> q; Qubit take(const char *nm) { const unsigned k = pin(nm, 0, (unsigned)q.size() - 1); const Qubit x = q[k]; q.erase(q.begin() + k); return x; } };
static std::unique_ptr<Operation> gate(Pool p, unsigned maxCtl) {
  const bool two = pinB("two");
  const OpType t = two ? kT2[pin("type2", 0, sym_tier() ? 6 : 2)] : kT1[sym_tier() ? pin("type1", 0, 11) : std::vector<unsigned>{0, 2, 8, 11}[pin("type1", 0, 3)]];
  Targets tg; tg.push_back(p.take("target")); if (two) tg.push_back(p.take("target2"));
  Controls c; const unsigned nc = p.q.empty() ? 0 : pin("controls", 0, std::min<unsigned>(maxCtl, p.q.size()));
  for (unsigned i = 0; i < nc; ++i) { const Qubit x = p.take("control"); c.emplace(Control{x, pinB("neg") ? Control::Type::Neg : Control::Type::Pos}); }
  std::vector<double> v; const double vals[] = {0.5, 0., -0.25};
  for (int i = 0; i < numParams(t); ++i) v.push_back(vals[sym_tier() ? pin("param", 0, 2) : (unsigned)i]);
  return std::make_unique<StandardOperation>(c, tg, t, v);
}
// parameters: every one up to the last that is not zero
static std::string params(const std::vector<double> &p) {
  size_t n = p.size(); while (n > 0 && p[n - 1] == 0) --n;
  if (n == 0) return "";
  std::ostringstream o; o << "p:";
  for (size_t i = 0; i < n; ++i) o << "(" << p[i] << ")";
  return o.str();
}
static std::string squeeze(const std::string &s) { std::string r; for (char c : s) if (c != ' ') r.push_back(c); return r; }
static std::string posColour, negColour;
static void checkRow(const std::string &line, bool prefix, const std::vector<Qubit> &cols, const Operation &op, const std::string &wantPre) {
  std::string pre, rest; std::vector<Cell> cells;
  sym_assert(parseRow(line, prefix, (unsigned)cols.size(), pre, cells, rest), "a row of the printed circuit does not have one column per qubit");
  sym_assert(squeeze(pre) == wantPre, "the number in front of a printed row is wrong");
  for (size_t k = 0; k < cols.size(); ++k) {
    const Qubit q = cols[k];
    std::string want = "|";
    const auto *nu = dynamic_cast<const NonUnitaryOperation *>(&op);
    const Control *ctl = nullptr; for (const auto &c : op.getControls()) if (c.qubit == q) ctl = &c;
    bool isT = false; size_t idx = 0;
    for (size_t i = 0; i < op.getTargets().size(); ++i) if (op.getTargets()[i] == q) { isT = true; idx = i; }
    if (isT) {
      if (nu && op.getType() == Measure) want = std::to_string(nu->getClassics()[idx]);
      else if (op.getType() == ClassicControlled) want = shortName(static_cast<const ClassicControlledOperation &>(op).getOperation()->getType());
      else want = shortName(op.getType());
    } else if (ctl) want = "c";
    sym_assert(cells[k].text == want, "a column of a printed row does not show what the operation does to its qubit");
    if (!isT && ctl) { if (ctl->type == Control::Type::Pos) posColour = cells[k].colour; else negColour = cells[k].colour; }
  }
  if (!posColour.empty() && !negColour.empty()) sym_assert(posColour != negColour, "positive and negative controls are printed alike");
  std::string want;
  if (op.getType() == ClassicControlled) {
    const auto &cc = static_cast<const ClassicControlledOperation &>(op);
    const char *k[] = {"==", "!=", "<", "<=", ">", ">="};
    std::ostringstream o; o << "c[";
    if (cc.getControlRegister().has_value()) { const auto &r = *cc.getControlRegister(); o << r.getStartIndex() << "..." << r.getStartIndex() + r.getSize() - 1; }
    else o << *cc.getControlBit();
    static const ComparisonKind ks[] = {Eq, Neq, Lt, Leq, Gt, Geq};
    unsigned i = 0; while (ks[i] != cc.getComparisonKind()) ++i;
    o << "]" << k[i] << cc.getExpectedValue();
    want = o.str();
  } else if (op.getType() != Measure && op.getType() != Reset) want = params(op.getParameter());
  sym_assert(squeeze(rest) == want, "a printed row does not show the parameters or the condition of its operation");
}
static std::unique_ptr<Operation> anyOp(const Pool &pool, const ClassicalRegister &reg, unsigned maxCtl) {
  const unsigned kind = pin("kind", 0, 4);
  Pool p = pool;
  if (kind == 0) return gate(pool, maxCtl);
  if (kind == 1) { // measurements in any order
    const unsigned m = pin("measured", 1, (unsigned)p.q.size());
    std::vector<Qubit> q; std::vector<Bit> b; unsigned bit = 3;
    for (unsigned i = 0; i < m; ++i) { q.push_back(p.take("mq")); b.push_back(bit--); }
    return std::make_unique<NonUnitaryOperation>(q, b);
  }
  if (kind == 2) { const unsigned m = pin("reset", 1, (unsigned)p.q.size()); std::vector<Qubit> q; for (unsigned i = 0; i < m; ++i) q.push_back(p.take("rq")); return std::make_unique<NonUnitaryOperation>(q, Reset); }
  if (kind == 3) { Targets t; const unsigned m = pin("barrier", 1, (unsigned)p.q.size()); for (unsigned i = 0; i < m; ++i) t.push_back(p.take("bq")); return std::make_unique<StandardOperation>(t, Barrier); }
  const Qubit t = p.take("cct"); static const OpType ts[] = {X, S, RX};
  const OpType ty = ts[pin("cctype", 0, 2)];
  auto inner = std::make_unique<StandardOperation>(t, ty, ty == RX ? std::vector<double>{0.5} : std::vector<double>{});
  static const ComparisonKind ks[] = {Eq, Neq, Lt, Leq, Gt, Geq};
  std::unique_ptr<Operation> o;
  if (pinB("bitcond")) o = std::make_unique<ClassicControlledOperation>(std::move(inner), (Bit)pin("bit", 0, 3), pin("val", 0, 1), ks[pin("cmp", 0, 1)]);
  else o = std::make_unique<ClassicControlledOperation>(std::move(inner), reg, pin("val", 0, 3), ks[pin("cmp", 0, 5)]);
  if (pinB("inverted")) o->invert();
  return o;
}
HARNESS(printCircuit) {
  const unsigned n = sym_tier() ? 4 : 3;
  QuantumComputation q(n, 0);
  q.addClassicalRegister(1, "a"); const auto &reg = q.addClassicalRegister(3, "b");
  q.setName("nm");
  // any layout
  std::vector<Qubit> lay, freeq; for (unsigned i = 0; i < n; ++i) freeq.push_back(i);
  if (sym_tier() == 0) { static const std::vector<Qubit> ls[] = {{0, 1, 2}, {1, 2, 0}, {0, 2, 1}}; lay = ls[pin("layout", 0, 2)]; }
  else for (unsigned i = 0; i < n; ++i) { const unsigned k = pin("layout", 0, (unsigned)freeq.size() - 1); lay.push_back(freeq[k]); freeq.erase(freeq.begin() + k); }
  for (unsigned i = 0; i < n; ++i) q.initialLayout[i] = lay[i];
  const unsigned removed = sym_tier() ? pin("removed", 0, n) : std::vector<unsigned>{n, 0, 1}[pin("removed", 0, 2)];
  if (removed < n) q.removeQubit(lay[removed]);
  std::vector<Qubit> cols; for (unsigned i = 0; i < n; ++i) if (i != removed) cols.push_back(i);
  const unsigned out = pin("output", 0, sym_tier() ? 3 : 1);
  if ((out & 1U) != 0 && cols.size() > 1) std::swap(q.outputPermutation[cols[0]], q.outputPermutation[cols[1]]);
  if (out == 1 || out == 2) q.outputPermutation.erase(cols.back());
  q.emplace_back(std::make_unique<StandardOperation>(cols[0], X));
  q.emplace_back(anyOp(Pool{cols}, reg, 2));
  std::ostringstream o; q.print(o);
  const auto ls = linesOf(o.str());
  sym_assert(ls.size() == 5 && ls[0] == "nm", "a circuit is printed as its name, the layout, one row per operation and the outputs");
  std::string pre, rest; std::vector<Cell> cells;
  sym_assert(parseRow(ls[1], true, (unsigned)cols.size(), pre, cells, rest) && squeeze(pre) == "i" && squeeze(rest).empty(), "the row of inputs does not have one column per qubit");
  for (size_t k = 0; k < cols.size(); ++k) sym_assert(cells[k].text == std::to_string(q.initialLayout.at(cols[k])), "the row of inputs does not show the initial layout");
  checkRow(ls[2], true, cols, *q.at(0), "1");
  checkRow(ls[3], true, cols, *q.at(1), "2");
  sym_assert(parseRow(ls[4], true, (unsigned)cols.size(), pre, cells, rest) && squeeze(pre) == "o" && squeeze(rest).empty(), "the row of outputs does not have one column per qubit");
  for (size_t k = 0; k < cols.size(); ++k) {
    const auto it = q.outputPermutation.find(cols[k]);
    sym_assert(cells[k].text == (it == q.outputPermutation.end() ? std::string("|") : std::to_string(it->second)), "the row of outputs does not show the output permutation");
  }
  sym_cover("printed");
}
// single operations, without a layout or within a group
HARNESS(printOp) {
  const unsigned n = sym_tier() ? 4 : 3;
  ClassicalRegister reg(1, 3, "b");
  std::vector<Qubit> cols; for (unsigned i = 0; i < n; ++i) cols.push_back(i);
  auto a = anyOp(Pool{cols}, reg, 2);
  if (pinB("single")) {
    std::ostringstream o; a->print(o, n);
    const auto ls = linesOf(o.str());
    sym_assert(ls.size() == 1, "an operation is printed as one row");
    checkRow(ls[0], false, cols, *a, "");
    sym_cover("alone");
    return;
  }
  CompoundOperation c;
  const Operation *pa = a.get();
  c.emplace_back(std::move(a));
  c.emplace_back(std::make_unique<StandardOperation>(1U, H));
  Permutation perm;
  const bool withPerm = pinB("permutation");
  if (withPerm) for (unsigned i = 0; i < n; ++i) perm[i] = (i + 1) % n;
  const unsigned width = pin("prefix", 0, 3);
  std::ostringstream o; c.print(o, perm, width, n);
  const auto ls = linesOf(o.str());
  sym_assert(ls.size() == 4, "a group is printed as one row per operation between two rules");
  sym_assert(squeeze(ls[0]) == std::string(4 * n, '-') && squeeze(ls[3]).find_first_not_of('-') == std::string::npos, "a group is printed between two rules");
  checkRow(ls[1], true, cols, *pa, "");
  checkRow(ls[2], true, cols, **(c.begin() + 1), "");
  sym_cover("group");
}
