// Matrices and vectors with all kinds of structure.
#pragma once
#include "ddsem.h"
using namespace qc;
static DM opM(const Mat &m, const std::vector<unsigned> &t, unsigned n, unsigned mask = 0, unsigned val = 0) {
  DM r(1U << n, SV(1U << n));
  for (unsigned c = 0; c < (1U << n); ++c) { SV v = basis(n, c); applyMat(v, m, t, mask, val); for (unsigned i = 0; i < v.size(); ++i) r[i][c] = v[i]; }
  return r;
}
static DM plus(const DM &a, const DM &b) { DM r = a; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) r[i][j] = a[i][j] + b[i][j]; return r; }
static DM times(Cx f, DM a) { for (auto &r : a) for (auto &x : r) x = x * f; return a; }
static DM zeroM(unsigned n) { return DM(1U << n, SV(1U << n)); }
static DM genericM(unsigned n, unsigned seed) { DM m = zeroM(n); for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j) m[i][j] = {std::sin(1. + seed + 3.1 * i + 7.7 * j * j), std::cos(2. * seed + 1.3 * i * i + 2.9 * j)}; return m; }
static const Mat kP0 = m2({1, 0}, {0, 0}, {0, 0}, {0, 0});
static const Mat kNil = m2({0, 0}, {1, 0}, {0, 0}, {0, 0});
static DM anyM(unsigned n, const char *nm = "matrix", unsigned hi = 13) {
  const unsigned k = pin(nm, 0, hi);
  const auto q = [&] { return pin("q", 0, n - 1); };
  switch (k) {
  case 0: return identM(n);
  case 1: return opM(refGate(X, {}), {q()}, n);
  case 2: { const unsigned a = q(); if (n == 1) return opM(refGate(Z, {}), {0}, n); const unsigned b = (a + 1 + pin("q2", 0, n - 2)) % n; return opM(refGate(X, {}), {b}, n, 1U << a, pinB("pos") ? 1U << a : 0); }
  case 3: return times({0, 0.5}, opM(refGate(H, {}), {q()}, n));
  case 4: return opM(kP0, {q()}, n);
  case 5: return genericM(n, 1);
  case 6: return zeroM(n);
  case 7: { DM d = genericM(n, 2); for (size_t i = 0; i < d.size(); ++i) for (size_t j = 0; j < d.size(); ++j) if (i != j) d[i][j] = {0, 0}; return d; }
  case 8: return mul(opM(refGate(RX, {0.7}), {0}, n), opM(refGate(T, {}), {n - 1}, n));
  case 9: return plus(identM(n), opM(refGate(X, {}), {q()}, n));
  case 10: return opM(kNil, {q()}, n);
  case 11: return times({0, -1}, identM(n));
  case 12: return n < 2 ? opM(refGate(Y, {}), {0}, n) : opM(refGate(SWAP, {}), {0, n - 1}, n);
  default: { DM d = genericM(n, 3); const unsigned h = 1U << (n - 1); for (size_t i = 0; i < d.size(); ++i) for (size_t j = 0; j < d.size(); ++j) if ((i ^ j) & h) d[i][j] = {0, 0}; return d; }
  }
}
static SV anyV(unsigned n, const char *nm = "vector", unsigned hi = 7) {
  SV v(1U << n);
  switch (pin(nm, 0, hi)) {
  case 0: return basis(n, 0);
  case 1: return basis(n, pin("index", 0, (1U << n) - 1));
  case 2: v[0] = {R2, 0}; v[v.size() - 1] = {0, R2}; return v;
  case 3: return normed(genericState(n));
  case 4: return v;
  case 5: for (unsigned i = 0; i < v.size(); ++i) v[i] = {(i & 1) ? -0.25 : 0.25, 0}; return v;
  case 6: v = genericState(n); for (unsigned i = 0; i < v.size(); i += 2) v[i] = {0, 0}; return v;
  default: v = genericState(n); for (unsigned i = v.size() / 2; i < v.size(); ++i) v[i] = v[i - v.size() / 2] * Cx{0, -0.5}; return v;
  }
}
