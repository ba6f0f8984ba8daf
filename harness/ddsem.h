// Dense meaning of decision diagrams, read off the nodes independently of the library.
#pragma once
#include "sem.h"
#include "dd/FunctionalityConstruction.hpp"
#include "dd/Operations.hpp"
#include "dd/Package.hpp"
#include "dd/Simulation.hpp"
using DM = std::vector<SV>; // rows
static inline dd::DDPackageConfig smallCfg() {
  dd::DDPackageConfig c;
  c.utVecNumBucket = c.utMatNumBucket = c.utDmNumBucket = 8;
  c.utVecInitialAllocationSize = c.utMatInitialAllocationSize = c.utDmInitialAllocationSize = 16;
  c.ctVecAddNumBucket = c.ctMatAddNumBucket = c.ctVecAddMagNumBucket = c.ctMatAddMagNumBucket = c.ctVecConjNumBucket = c.ctMatConjTransNumBucket = 8;
  c.ctMatVecMultNumBucket = c.ctMatMatMultNumBucket = c.ctVecKronNumBucket = c.ctMatKronNumBucket = c.ctDmTraceNumBucket = c.ctMatTraceNumBucket = 8;
  c.ctVecInnerProdNumBucket = c.ctDmNoiseNumBucket = c.ctDmDmMultNumBucket = c.ctDmAddNumBucket = 8;
  return c;
}
static inline Cx val(const dd::Complex &c) { return {dd::RealNumber::val(c.r), dd::RealNumber::val(c.i)}; }
static inline void fillV(const dd::vEdge &e, int lvl, unsigned i, Cx w, SV &o) {
  const Cx x = w * val(e.w);
  if (e.w.exactlyZero()) return;
  if (lvl < 0) { sym_assert(e.isTerminal(), "a node below the lowest level"); o[i] = x; return; }
  sym_assert(!e.isTerminal() && (int)e.p->v == lvl, "a level is missing in a vector decision diagram");
  fillV(e.p->e[0], lvl - 1, i, x, o);
  fillV(e.p->e[1], lvl - 1, i | 1U << lvl, x, o);
}
static inline SV dense(const dd::vEdge &e, unsigned n) { SV o(1U << n); fillV(e, (int)n - 1, 0, {1, 0}, o); return o; }
template <class E> static inline void fillM(const E &e, int lvl, unsigned r, unsigned c, Cx w, DM &o) {
  const Cx x = w * val(e.w);
  if (e.w.exactlyZero()) return;
  if (lvl < 0) { sym_assert(e.isTerminal(), "a node below the lowest level"); o[r][c] = x; return; }
  if (e.isTerminal() || (int)e.p->v < lvl) { // identity on this level
    E k = e; k.w = dd::Complex::one();
    fillM(k, lvl - 1, r, c, x, o); fillM(k, lvl - 1, r | 1U << lvl, c | 1U << lvl, x, o);
    return;
  }
  sym_assert((int)e.p->v == lvl, "levels out of order in a matrix decision diagram");
  for (unsigned k = 0; k < 4; ++k) fillM(e.p->e[k], lvl - 1, r | (k >> 1) << lvl, c | (k & 1U) << lvl, x, o);
}
static inline DM dense(const dd::mEdge &e, unsigned n) { DM o(1U << n, SV(1U << n)); fillM(e, (int)n - 1, 0, 0, {1, 0}, o); return o; }
static inline bool nearM(const DM &a, const DM &b, double tol = 1e-9) { for (size_t i = 0; i < a.size(); ++i) if (!nearSV(a[i], b[i], tol)) return false; return a.size() == b.size(); }
static inline DM transposed(const DM &m) { DM t = m; for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j) t[i][j] = m[j][i]; return t; }
static inline DM mul(const DM &a, const DM &b) { DM r(a.size(), SV(a.size())); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) for (size_t k = 0; k < a.size(); ++k) r[i][j] = r[i][j] + a[i][k] * b[k][j]; return r; }
static inline DM adj(const DM &m) { DM t = transposed(m); for (auto &r : t) for (auto &x : r) x.im = -x.im; return t; }
static inline SV mul(const DM &a, const SV &v) { SV r(v.size()); for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k < v.size(); ++k) r[i] = r[i] + a[i][k] * v[k]; return r; }
static inline DM identM(unsigned n) { DM m(1U << n, SV(1U << n)); for (size_t i = 0; i < m.size(); ++i) m[i][i] = {1, 0}; return m; }
static inline double norm2(const SV &v) { double s = 0; for (auto &x : v) s += x.re * x.re + x.im * x.im; return s; }
static inline SV normed(SV v) { const double s = std::sqrt(norm2(v)); for (auto &x : v) { x.re /= s; x.im /= s; } return v; }
static inline dd::CVec cvec(const SV &v) { dd::CVec o; for (auto &x : v) o.emplace_back(x.re, x.im); return o; }
static inline dd::CMat cmat(const DM &v) { dd::CMat o; for (auto &x : v) o.push_back(cvec(x)); return o; }
