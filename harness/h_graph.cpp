// Graphs, disjoint sets, symmetric matrices.
#include "sem.h"
#include "datastructures/DirectedAcyclicGraph.hpp"
#include "datastructures/DirectedGraph.hpp"
#include "datastructures/DisjointSet.hpp"
#include "datastructures/SymmetricMatrix.hpp"
#include "datastructures/UndirectedGraph.hpp"
#include <algorithm>
#include <set>
#include <stdexcept>
#include <string>
template <class F> static bool throwsInvalid(F f) { try { f(); } catch (const std::invalid_argument &) { return true; } catch (const std::out_of_range &) { return true; } return false; }
static const int kName[] = {7, 3, 11, 5, 2};
template <class G> static void checkText(const std::string &s, const G &g, unsigned n, const std::vector<std::vector<bool>> &e, const char *arrow, const std::vector<int> &order) {
  // the text lists every vertex with its label and every edge between indices
  std::set<std::string> lines, want;
  size_t b = 0;
  while (b < s.size()) { const size_t f = s.find('\n', b); lines.insert(s.substr(b, f - b)); b = f + 1; }
  want.insert(arrow[1] == '>' ? "digraph {" : "graph {"); want.insert("}");
  for (unsigned i = 0; i < n; ++i) want.insert("  " + std::to_string(i) + " [label=\"" + std::to_string(order[i]) + "\"];");
  for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (e[i][j] && (arrow[1] == '>' || i <= j)) want.insert("  " + std::to_string(i) + " " + arrow + " " + std::to_string(j) + ";");
  sym_assert(lines == want, "the text of the graph is wrong");
}
HARNESS(grDirected) {
  const unsigned n = 4;
  qc::DirectedGraph<int> plain;
  qc::DirectedAcyclicGraph<int> dag;
  const bool acyclic = pinB("acyclic");
  qc::DirectedGraph<int> &g = acyclic ? dag : plain;
  std::vector<std::vector<bool>> e(n, std::vector<bool>(n, false)), r = e;
  std::vector<int> order;
  auto idx = [&](int v) { for (unsigned i = 0; i < order.size(); ++i) if (order[i] == v) return (int)i; return -1; };
  for (unsigned i = 0; i < n; ++i) r[i][i] = true;
  for (unsigned k = 0; k < (sym_tier() ? 5u : 4u); ++k) {
    const unsigned a = k == 0 ? 0 : pin("from", 0, n - 1), b = pin("to", 0, k == 0 ? 1 : n - 1); // names are arbitrary
    if (k == 0 && a == b) { // a vertex of its own
      g.addVertex(kName[a]); order.push_back(kName[a]);
      sym_assert(throwsInvalid([&] { g.addVertex(kName[a]); }), "a vertex is added twice");
      continue;
    }
    const auto before = order;
    for (int v : {kName[a], kName[b]}) if (idx(v) < 0) order.push_back(v);
    const int i = idx(kName[a]), j = idx(kName[b]);
    bool threw = false;
    try { g.addEdge(kName[a], kName[b]); } catch (const std::logic_error &) { threw = true; }
    const bool cycle = acyclic && r[j][i];
    sym_assert(threw == cycle, threw ? "an edge that creates no cycle is rejected" : "an edge that creates a cycle is accepted");
    if (threw) { sym_cover("cycle"); continue; }
    e[i][j] = true;
    for (unsigned x = 0; x < n; ++x) for (unsigned y = 0; y < n; ++y) if (r[x][i] && r[j][y]) r[x][y] = true;
  }
  const unsigned m = order.size();
  unsigned edges = 0;
  sym_assert(g.getNVertices() == m, "the number of vertices is wrong");
  const auto vs = g.getVertices();
  sym_assert(std::set<int>(vs.begin(), vs.end()) == std::set<int>(order.begin(), order.end()), "the vertices are wrong");
  for (unsigned i = 0; i < m; ++i) {
    unsigned in = 0, out = 0;
    for (unsigned j = 0; j < m; ++j) {
      edges += e[i][j]; out += e[i][j]; in += e[j][i];
      sym_assert(g.isEdge(order[i], order[j]) == e[i][j], "an edge is missing or superfluous");
      if (acyclic) sym_assert(dag.isReachable(order[i], order[j]) == r[i][j], "reachability is wrong");
    }
    sym_assert(g.getInDegree(order[i]) == in && g.getOutDegree(order[i]) == out, "a degree is wrong");
  }
  sym_assert(g.getNEdges() == edges, "the number of edges is wrong");
  checkText(g.toString(), g, m, e, "->", order);
  sym_assert(throwsInvalid([&] { (void)g.isEdge(order[0], 99); }) && throwsInvalid([&] { (void)g.isEdge(99, order[0]); }) && throwsInvalid([&] { (void)g.getInDegree(99); }) && throwsInvalid([&] { (void)g.getOutDegree(99); }), "a vertex that is not in the graph is accepted");
  if (!acyclic) { sym_cover("plain"); return; }
  const auto top = dag.orderTopologically();
  sym_assert(top.size() == m && std::set<int>(top.begin(), top.end()).size() == m, "the topological order does not list every vertex once");
  for (unsigned x = 0; x < m; ++x) for (unsigned y = x + 1; y < m; ++y) sym_assert(!e[idx(top[y])][idx(top[x])], "the topological order violates an edge");
  sym_cover("dag");
}
HARNESS(grUndirected) {
  const unsigned n = 4;
  qc::UndirectedGraph<int, int> g;
  std::vector<std::vector<int>> e(n, std::vector<int>(n, 0)); // 0: none
  std::vector<int> order;
  auto idx = [&](int v) { for (unsigned i = 0; i < order.size(); ++i) if (order[i] == v) return (int)i; return -1; };
  for (unsigned k = 0; k < (sym_tier() ? 5u : 4u); ++k) {
    const unsigned a = k == 0 ? 0 : pin("u", 0, n - 1), b = pin("v", 0, k == 0 ? 1 : n - 1);
    if (k == 1 && a == b && idx(kName[a]) < 0) {
      g.addVertex(kName[a]); order.push_back(kName[a]);
      sym_assert(throwsInvalid([&] { g.addVertex(kName[a]); }), "a vertex is added twice");
      continue;
    }
    for (int v : {kName[a], kName[b]}) if (idx(v) < 0) order.push_back(v);
    const int i = idx(kName[a]), j = idx(kName[b]);
    const bool threw = throwsInvalid([&] { g.addEdge(kName[a], kName[b], 100 + (int)k); });
    sym_assert(threw == (e[i][j] != 0), "an edge is added twice, or a new one is rejected");
    if (threw) { sym_cover("twice"); continue; }
    e[i][j] = e[j][i] = 100 + (int)k;
  }
  const unsigned m = order.size();
  sym_assert(g.getNVertices() == m, "the number of vertices is wrong");
  const auto vs = g.getVertices();
  sym_assert(std::set<int>(vs.begin(), vs.end()) == std::set<int>(order.begin(), order.end()), "the vertices are wrong");
  unsigned edges = 0;
  std::vector<std::vector<bool>> be(n, std::vector<bool>(n, false));
  for (unsigned i = 0; i < m; ++i) {
    std::set<int> nb; std::set<std::pair<int, int>> ne;
    for (unsigned j = 0; j < m; ++j) {
      be[i][j] = e[i][j] != 0;
      if (i <= j) edges += be[i][j];
      if (be[i][j]) { nb.insert(order[j]); ne.insert({order[i], order[j]}); sym_assert(g.getEdge(order[i], order[j]) == e[i][j], "the value of an edge is wrong"); }
      else sym_assert(throwsInvalid([&] { (void)g.getEdge(order[i], order[j]); }), "an edge that does not exist has a value");
      sym_assert(g.isAdjacent(order[i], order[j]) == be[i][j], "adjacency is wrong");
    }
    sym_assert(g.getDegree(order[i]) == nb.size(), "a degree is wrong");
    const auto gn = g.getNeighbours(order[i]);
    sym_assert(std::set<int>(gn.begin(), gn.end()) == nb, "the neighbours are wrong");
    const auto ga = g.getAdjacentEdges(order[i]);
    sym_assert(std::set<std::pair<int, int>>(ga.begin(), ga.end()) == ne, "the adjacent edges are wrong");
    if (be[i][i]) sym_cover("loop");
  }
  sym_assert(g.getNEdges() == edges, "the number of edges is wrong");
  checkText(g.toString(), g, m, be, "--", order);
  sym_assert(throwsInvalid([&] { (void)g.isAdjacent(order[0], 99); }) && throwsInvalid([&] { (void)g.getDegree(99); }) && throwsInvalid([&] { (void)g.getNeighbours(99); }) && throwsInvalid([&] { (void)g.getAdjacentEdges(99); }) && throwsInvalid([&] { (void)g.getEdge(order[0], 99); }), "a vertex that is not in the graph is accepted");
  sym_cover("undirected");
}
HARNESS(grDisjointSet) {
  const unsigned n = 5;
  std::vector<int> el(kName, kName + n);
  qc::DisjointSet<int> ds(el.begin(), el.end());
  std::vector<unsigned> part(n);
  for (unsigned i = 0; i < n; ++i) part[i] = i;
  for (unsigned k = 0; k < (sym_tier() ? 4u : 3u); ++k) {
    const unsigned a = pin("a", 0, n - 1), b = pin("b", 0, n - 1);
    ds.unionSet(el[a], el[b]);
    const unsigned pa = part[a], pb = part[b];
    for (auto &p : part) if (p == pa) p = pb;
    for (unsigned i = 0; i < n; ++i) {
      const int f = ds.findSet(el[i]);
      unsigned fi = n;
      for (unsigned j = 0; j < n; ++j) if (el[j] == f) fi = j;
      sym_assert(fi < n && part[fi] == part[i], "the representative of an element is not in its set");
      for (unsigned j = 0; j < i; ++j) sym_assert((f == ds.findSet(el[j])) == (part[i] == part[j]), "elements are in the same set exactly if they were joined");
    }
  }
  sym_cover("joined");
}
HARNESS(grSymmetricMatrix) {
  const unsigned n = pin("size", 0, 4);
  qc::SymmetricMatrix<int> m(n, 5), z(n);
  std::vector<std::vector<int>> w(n, std::vector<int>(n, 5));
  sym_assert(m.size() == n && z.size() == n && qc::SymmetricMatrix<int>().size() == 0, "the size of the matrix is wrong");
  if (n > 0) for (unsigned k = 0; k < 2; ++k) {
    const unsigned i = pin("i", 0, n - 1), j = pin("j", 0, n - 1);
    m(i, j) = (int)(10 + k); w[i][j] = w[j][i] = (int)(10 + k);
  }
  for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
    sym_assert(m(i, j) == w[i][j] && std::as_const(m)(i, j) == w[i][j], "an entry of the symmetric matrix is wrong");
    sym_assert(z(i, j) == 0, "the matrix is not initialised");
  }
  sym_cover("matrix");
}
HARNESS(grEdges) {
  const std::pair<int, int> p{pin("p", 0, 2), pin("p", 0, 2)}, q{pin("q", 0, 2), pin("q", 0, 2)};
  sym_assert(qc::UndirectedGraph<int, int>::isAdjacentEdge(p, q) == (p.first == q.first || p.first == q.second || p.second == q.first || p.second == q.second), "adjacency of edges is wrong");
  sym_cover("edges");
}
