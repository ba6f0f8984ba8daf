// Neutral-atom computations: validation, locations, geometry, text.
#include "sem.h"
#include "na/NAComputation.hpp"
#include "na/entities/Atom.hpp"
#include "na/entities/Location.hpp"
#include "na/entities/Zone.hpp"
#include "na/operations/GlobalCZOp.hpp"
#include "na/operations/GlobalRYOp.hpp"
#include "na/operations/LoadOp.hpp"
#include "na/operations/LocalRZOp.hpp"
#include "na/operations/LocalUOp.hpp"
#include "na/operations/MoveOp.hpp"
#include "na/operations/StoreOp.hpp"
#include <cmath>
#include <string>
using na::Atom; using na::Location; using na::NAComputation;
static double coord(const char *n) { return sym_real(n, -4, 4); }
static Location loc(const char *n) { const double x = coord(n), y = coord(n); return {x, y}; }
// the AOD constraint for two atoms that move together
static bool together(const Location &s1, const Location &s2, const Location &e1, const Location &e2) {
  const bool col = ((s1.x < s2.x) & (e1.x < e2.x)) | ((s1.x > s2.x) & (e1.x > e2.x)) | ((s1.x == s2.x) & (e1.x == e2.x));
  const bool row = ((s1.y < s2.y) & (e1.y < e2.y)) | ((s1.y > s2.y) & (e1.y > e2.y)) | ((s1.y == s2.y) & (e1.y == e2.y));
  const bool apart = !((e1.x == e2.x) & (e1.y == e2.y));
  return col & row & apart;
}
static const unsigned kSet[][3] = {{0, 3, 3}, {1, 3, 3}, {0, 1, 3}, {1, 0, 3}, {1, 2, 3}, {0, 0, 3}, {0, 1, 2}, {2, 1, 0}};
static void program(unsigned nAtoms, unsigned len, unsigned kinds, unsigned sets, bool rigid = false) {
  NAComputation c;
  std::vector<const Atom *> at;
  std::vector<Location> where;
  for (unsigned i = 0; i < nAtoms; ++i) {
    at.push_back(&c.emplaceBackAtom("atom" + std::to_string(i)));
    static const Location kStart[] = {{0, 0}, {10.25, 3}, {-7, 5}};
    where.push_back(rigid ? kStart[i] : loc("start"));
    c.emplaceInitialLocation(*at[i], std::as_const(where[i]));
  }
  const auto &zone = c.emplaceBackZone("zone");
  std::vector<bool> up(nAtoms, false);
  bool ok = true;
  std::vector<std::vector<Location>> hist;
  for (unsigned k = 0; k < len; ++k) {
    const unsigned kind = pin("kind", 0, kinds - 1);
    const auto &s = kSet[pin("atoms", 0, sets - 1)];
    std::vector<const Atom *> as; std::vector<unsigned> id;
    for (unsigned j = 0; j < 3 && s[j] < 3; ++j) { as.push_back(at[s[j]]); id.push_back(s[j]); }
    std::vector<Location> to;
    const bool moves = kind == 1 || kind == 2 || kind == 4;
    if (moves) for (size_t j = 0; j < as.size(); ++j) to.push_back(rigid ? where[id[j]] + Location{1, -1} : loc("target"));
    bool twice = id.size() > 1 && id[0] == id[1];
    if (kind == 5) { c.emplaceBack<na::LocalRZOp>(as, 0.5); ok = ok && !twice; }
    if (kind == 6) c.emplaceBack<na::GlobalCZOp>(zone);
    if (kind == 0) c.emplaceBack<na::LoadOp>(as);
    if (kind == 1) c.emplaceBack<na::LoadOp>(as, to);
    if (kind == 2) c.emplaceBack<na::MoveOp>(as, to);
    if (kind == 3) c.emplaceBack<na::StoreOp>(as);
    if (kind == 4) c.emplaceBack<na::StoreOp>(as, to);
    if (kind < 5) {
      ok = ok && !twice;
      for (auto i : id) { if (kind <= 1) { if (up[i]) ok = false; } else if (!up[i]) ok = false; }
      if (moves && !twice) for (size_t a = 0; a < id.size(); ++a) for (size_t b = a + 1; b < id.size(); ++b) ok = ok & together(where[id[a]], where[id[b]], to[a], to[b]);
      if (moves && !twice) for (size_t a = 0; a < id.size(); ++a) where[id[a]] = to[a];
      for (auto i : id) { if (kind <= 1) up[i] = true; if (kind == 3 || kind == 4) up[i] = false; }
    }
    hist.push_back(where);
    if (twice) break;
  }
  const auto v = c.validate();
  sym_assert(v.first == ok, v.first ? "an invalid computation is reported as valid" : "a valid computation is reported as invalid");
  sym_assert(v.first == v.second.empty(), "the error message is missing or superfluous");
  sym_cover(v.first ? "valid" : "invalid");
  if (!v.first) return;
  for (unsigned k = 0; k < hist.size(); ++k) for (unsigned i = 0; i < nAtoms; ++i) {
    const Location l = c.getLocationOfAtomAfterOperation(*at[i], c[k]);
    sym_assert((l.x == hist[k][i].x) & (l.y == hist[k][i].y), "the location of an atom is wrong");
  }
}
HARNESS(naPairs) { // two atoms, any coordinates
  sym_real_mode();
  program(2, sym_tier() ? 4 : 3, 7, sym_tier() ? 4 : 3);
}
HARNESS(naTriples) { // three atoms moved together
  sym_real_mode();
  NAComputation c;
  const Atom *at[3]; Location s[3], e[3];
  for (unsigned i = 0; i < 3; ++i) { at[i] = &c.emplaceBackAtom("a"); s[i] = loc("start"); c.emplaceInitialLocation(*at[i], std::as_const(s[i])); }
  const unsigned kind = pin("kind", 0, 2);
  std::vector<Location> to;
  for (unsigned i = 0; i < 3; ++i) { e[i] = loc("target"); to.push_back(e[i]); }
  const std::vector<const Atom *> as{at[0], at[1], at[2]};
  if (kind == 0) c.emplaceBack<na::LoadOp>(as, to);
  else {
    c.emplaceBack<na::LoadOp>(as);
    if (kind == 1) c.emplaceBack<na::MoveOp>(as, to); else c.emplaceBack<na::StoreOp>(as, to);
  }
  bool ok = true;
  for (unsigned a = 0; a < 3; ++a) for (unsigned b = a + 1; b < 3; ++b) ok = ok & together(s[a], s[b], e[a], e[b]);
  sym_assert(c.validate().first == ok, "three atoms moved together are judged incorrectly");
  sym_cover("triple");
}
HARNESS(naProtocol) { // loading, moving and storing in any order, repeated atoms
  program(3, sym_tier() ? 4 : 3, 6, sym_tier() ? 8 : 6, true);
}
HARNESS(naGeometry) { // locations and zones, any coordinates
  sym_real_mode();
  const Location a = loc("a"), b = loc("b"), c = loc("c");
  const bool less = (a.x < b.x) | ((a.x == b.x) & (a.y < b.y)), eq = (a.x == b.x) & (a.y == b.y);
  const unsigned k = pin("kind", 0, 4);
  if (k == 0) {
    sym_assert((a == b) == eq && (a != b) == !eq, "comparing locations for equality is wrong");
    sym_assert((a < b) == less, "the order of locations is wrong");
    sym_assert((a <= b) == (less | eq), "the order of locations is wrong");
    sym_assert((a > b) == !(less | eq), "the order of locations is wrong");
    sym_assert((a >= b) == !less, "the order of locations is wrong");
  }
  if (k == 1) sym_assert(!(a < b && b < c) || a < c, "the order of locations is not transitive");
  if (k == 2) {
    const Location s = a + b, d = a - b;
    sym_assert((s.x == a.x + b.x) & (s.y == a.y + b.y) & (d.x == a.x - b.x) & (d.y == a.y - b.y), "sums or differences of locations are wrong");
    const double mx = a.getManhattanDistanceX(b), my = a.getManhattanDistanceY(b);
    sym_assert((mx >= 0) & (my >= 0) & ((mx == d.x) | (mx == -d.x)) & ((my == d.y) | (my == -d.y)), "the distance along an axis is wrong");
  }
  if (k == 3) {
    na::Zone z("zone");
    bool threw = false;
    try { (void)z.contains(a); } catch (const std::runtime_error &) { threw = true; }
    sym_assert(threw, "a zone without an extent contains something");
    z.setExtent({b.x, b.y, c.x, c.y});
    sym_assert(z.contains(a) == ((b.x <= a.x) & (a.x <= c.x) & (b.y <= a.y) & (a.y <= c.y)), "a zone contains the wrong locations");
    const na::Zone z2("zone", {b.x, b.y, c.x, c.y}), z3("other", {b.x, b.y, c.x, c.y});
    sym_assert(z2.contains(a) == z.contains(a) && z == z2 && !(z != z2) && z != z3 && !(z == z3), "zones are compared incorrectly");
  }
  if (k == 4) { // concrete distances
    const double dx = (double)pin("dx", 0, 6) - 3, dy = (double)pin("dy", 0, 6) - 3;
    const Location p{1.5, -2}, q{1.5 + dx, -2 + dy};
    const double r = std::sqrt(dx * dx + dy * dy);
    sym_assert(std::fabs(p.getEuclideanDistance(q) - r) < 1e-12 && std::fabs(Location::distance(q, p) - r) < 1e-12 && std::fabs((q - p).length() - r) < 1e-12, "the distance of locations is wrong");
    sym_assert(std::hash<Location>{}(q) == std::hash<Location>{}(Location{1.5 + dx, -2 + dy}), "equal locations have different hashes");
    sym_cover("distance");
  }
  sym_cover("geometry");
}
static std::string fixed3(int thousandths) {
  std::string s = thousandths < 0 ? "-" : "";
  const int a = std::abs(thousandths);
  std::string f = std::to_string(a % 1000);
  while (f.size() < 3) f = "0" + f;
  return s + std::to_string(a / 1000) + "." + f;
}
static std::string lt(int x, int y) { return "(" + fixed3(x) + ", " + fixed3(y) + ")"; }
HARNESS(naText) { // the text lists all atoms and operations
  NAComputation c;
  const unsigned n = pin("atoms", 0, 3), same = n > 1 ? pin("same", 0, 1) : 0;
  std::vector<const Atom *> at;
  std::vector<std::pair<std::pair<int, int>, unsigned>> order;
  for (unsigned i = 0; i < n; ++i) {
    at.push_back(&c.emplaceBackAtom("atom" + std::to_string(i)));
    const int x = same && i == 1 ? -1500 : (int)(i * 1250) - 1500, y = same && i == 1 ? 250 : 250 - (int)i;
    const Location l{x / 1000., y / 1000.}; c.emplaceInitialLocation(*at[i], l);
    order.push_back({{x, y}, i});
  }
  std::sort(order.begin(), order.end());
  std::vector<std::string> atoms;
  for (auto &[p, i] : order) atoms.push_back("atom " + lt(p.first, p.second) + " atom" + std::to_string(i));
  std::string ops;
  const auto &z0 = c.emplaceBackZone("zoneA"), &z1 = c.emplaceBackZone("zoneB");
  const unsigned len = pin("len", 0, 2);
  for (unsigned k = 0; k < len; ++k) {
    const unsigned kind = pin("kind", 0, 8);
    const unsigned m = kind >= 7 ? pin("zones", 1, 2) : n ? pin("m", 1, n) : 0;
    if (kind < 7) sym_assume(n > 0);
    const std::vector<const Atom *> as(at.begin(), at.begin() + (kind < 7 ? m : 0));
    std::vector<Location> to;
    for (unsigned j = 0; j < m; ++j) to.push_back({j + 0.5, -(double)j});
    const std::vector<const na::Zone *> zs = m == 2 ? std::vector<const na::Zone *>{&z0, &z1} : std::vector<const na::Zone *>{&z1};
    std::string name, pre;
    bool tgt = false;
    switch (kind) {
    case 0: c.emplaceBack<na::LoadOp>(as); name = "load"; break;
    case 1: c.emplaceBack<na::LoadOp>(as, to); name = "load"; tgt = true; break;
    case 2: c.emplaceBack<na::MoveOp>(as, to); name = "move"; tgt = true; break;
    case 3: c.emplaceBack<na::StoreOp>(as); name = "store"; break;
    case 4: c.emplaceBack<na::StoreOp>(as, to); name = "store"; tgt = true; break;
    case 5: c.emplaceBack<na::LocalRZOp>(as, -0.25); name = "rz"; pre = "-0.25000 "; break;
    case 6: c.emplaceBack<na::LocalUOp>(as, 1., 0.5, 2.); name = "u"; pre = "1.00000 0.50000 2.00000 "; break;
    case 7: c.emplaceBack<na::GlobalCZOp>(zs); name = "cz"; break;
    default: c.emplaceBack<na::GlobalRYOp>(zs, 0.125); name = "ry"; pre = "0.12500 "; break;
    }
    ops += "@+ " + name + " ";
    auto item = [&](unsigned j) { return (tgt ? lt(500 + 1000 * (int)j, -1000 * (int)j) + " " : "") + pre + (kind < 7 ? as[j]->getName() : zs[j]->getName()); };
    if (m == 1) ops += item(0) + "\n";
    else { ops += "[\n"; for (unsigned j = 0; j < m; ++j) ops += "    " + item(j) + "\n"; ops += "]\n"; }
  }
  std::string text = c.toString();
  // -0.000 and 0.000 are the same number
  for (size_t p; (p = text.find("-0.000,")) != std::string::npos;) text.erase(p, 1);
  for (size_t p; (p = text.find("-0.000)")) != std::string::npos;) text.erase(p, 1);
  std::vector<std::string> lines; std::string rest;
  for (size_t i = 0, l = 0; i < text.size(); ++l) { const size_t e = text.find('\n', i); sym_assert(e != std::string::npos, "the text does not end with a line break"); if (l < n) lines.push_back(text.substr(i, e - i)); else rest += text.substr(i, e - i + 1); i = e + 1; }
  if (same) { std::sort(lines.begin(), lines.end()); std::sort(atoms.begin(), atoms.end()); }
  sym_assert(lines == atoms, "the text does not list all atoms by location");
  sym_assert(rest == ops, "the text does not list the operations");
  sym_cover("text");
}
