// Reference gate semantics, written from the documented gate definitions
// (OpenQASM stdgates / the gate list in the IR documentation), independent of
// the library.  Two-qubit matrices index rows/columns as 2*bit(t0)+bit(t1).
#pragma once
#include "sym.h"
#include "ir/Definitions.hpp"
#include "ir/operations/OpType.hpp"
#include <cmath>
#include <vector>
struct Cx { double re = 0, im = 0; };
static inline Cx operator*(Cx a, Cx b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static inline Cx operator+(Cx a, Cx b) { return {a.re + b.re, a.im + b.im}; }
static inline Cx operator-(Cx a, Cx b) { return {a.re - b.re, a.im - b.im}; }
static inline Cx cis(double a) { return {std::cos(a), std::sin(a)}; }
struct Mat { int n = 0; Cx a[4][4]; };
static inline Mat mm(const Mat &x, const Mat &y) {
  Mat r; r.n = x.n;
  for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.n; ++j) { Cx s; for (int k = 0; k < x.n; ++k) s = s + x.a[i][k] * y.a[k][j]; r.a[i][j] = s; }
  return r;
}
static inline Mat ident(int n) { Mat r; r.n = n; for (int i = 0; i < n; ++i) r.a[i][i] = {1, 0}; return r; }
static inline Mat kron(const Mat &x, const Mat &y) {
  Mat r; r.n = 4;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.a[i][j] = x.a[i >> 1][j >> 1] * y.a[i & 1][j & 1];
  return r;
}
static inline Mat swapIdx(const Mat &x) { // exchange the roles of t0 and t1
  Mat r; r.n = 4; const int p[4] = {0, 2, 1, 3};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.a[i][j] = x.a[p[i]][p[j]];
  return r;
}
static const double R2 = 0.707106781186547524400844362104849039;
static inline Mat m2(Cx a, Cx b, Cx c, Cx d) { Mat r; r.n = 2; r.a[0][0] = a; r.a[0][1] = b; r.a[1][0] = c; r.a[1][1] = d; return r; }
static inline Mat refU(double th, double ph, double la) {
  Cx c{std::cos(th / 2), 0}, s{std::sin(th / 2), 0}, ms{-std::sin(th / 2), 0};
  return m2(c, ms * cis(la), s * cis(ph), c * cis(ph + la));
}
static inline Mat cxMat() { Mat r; r.n = 4; r.a[0][0] = r.a[1][1] = r.a[2][3] = r.a[3][2] = {1, 0}; return r; }
// exp(-i th/2 P) for a self-inverse P
static inline Mat expP(double th, const Mat &P) {
  Mat r; r.n = P.n; double c = std::cos(th / 2), s = std::sin(th / 2);
  for (int i = 0; i < P.n; ++i) for (int j = 0; j < P.n; ++j) { Cx v = P.a[i][j]; r.a[i][j] = {s * v.im + (i == j ? c : 0.), -s * v.re}; }
  return r;
}
static inline Mat refGate(qc::OpType t, const std::vector<double> &p) {
  const Mat X = m2({0, 0}, {1, 0}, {1, 0}, {0, 0}), Y = m2({0, 0}, {0, -1}, {0, 1}, {0, 0}), Z = m2({1, 0}, {0, 0}, {0, 0}, {-1, 0}), I = ident(2);
  switch (t) {
  case qc::GPhase: { Mat r; r.n = 1; r.a[0][0] = cis(p.at(0)); return r; }
  case qc::I: return I;
  case qc::X: return X;
  case qc::Y: return Y;
  case qc::Z: return Z;
  case qc::H: return m2({R2, 0}, {R2, 0}, {R2, 0}, {-R2, 0});
  case qc::S: return m2({1, 0}, {0, 0}, {0, 0}, {0, 1});
  case qc::Sdg: return m2({1, 0}, {0, 0}, {0, 0}, {0, -1});
  case qc::T: return m2({1, 0}, {0, 0}, {0, 0}, {R2, R2});
  case qc::Tdg: return m2({1, 0}, {0, 0}, {0, 0}, {R2, -R2});
  case qc::V: return m2({R2, 0}, {0, -R2}, {0, -R2}, {R2, 0});
  case qc::Vdg: return m2({R2, 0}, {0, R2}, {0, R2}, {R2, 0});
  case qc::SX: return m2({.5, .5}, {.5, -.5}, {.5, -.5}, {.5, .5});
  case qc::SXdg: return m2({.5, -.5}, {.5, .5}, {.5, .5}, {.5, -.5});
  case qc::U: return refU(p.at(0), p.at(1), p.at(2));
  case qc::U2: { Cx r{R2, 0}, m{-R2, 0}; return m2(r, m * cis(p.at(1)), r * cis(p.at(0)), r * cis(p.at(0) + p.at(1))); }
  case qc::P: return m2({1, 0}, {0, 0}, {0, 0}, cis(p.at(0)));
  case qc::RX: return expP(p.at(0), X);
  case qc::RY: return expP(p.at(0), Y);
  case qc::RZ: return expP(p.at(0), Z);
  case qc::SWAP: { Mat r; r.n = 4; r.a[0][0] = r.a[1][2] = r.a[2][1] = r.a[3][3] = {1, 0}; return r; }
  case qc::iSWAP: { Mat r; r.n = 4; r.a[0][0] = r.a[3][3] = {1, 0}; r.a[1][2] = r.a[2][1] = {0, 1}; return r; }
  case qc::iSWAPdg: { Mat r; r.n = 4; r.a[0][0] = r.a[3][3] = {1, 0}; r.a[1][2] = r.a[2][1] = {0, -1}; return r; }
  case qc::DCX: return mm(swapIdx(cxMat()), cxMat());
  case qc::ECR: { // (I(x)X - X(x)Y)/sqrt2 in (q1,q0) order, q0 = t0
    Mat a = kron(X, I), b = kron(Y, X), r; r.n = 4;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { Cx d = a.a[i][j] - b.a[i][j]; r.a[i][j] = {d.re * R2, d.im * R2}; }
    return r; }
  case qc::Peres: return mm(kron(X, I), cxMat());
  case qc::Peresdg: return mm(cxMat(), kron(X, I));
  case qc::RXX: return expP(p.at(0), kron(X, X));
  case qc::RYY: return expP(p.at(0), kron(Y, Y));
  case qc::RZZ: return expP(p.at(0), kron(Z, Z));
  case qc::RZX: return expP(p.at(0), kron(Z, X));
  case qc::XXminusYY: { // Rz_{b}(q1) exp(-i th/4 (XX-YY)) conj., closed form
    Mat r = ident(4); double c = std::cos(p.at(0) / 2), s = std::sin(p.at(0) / 2); Cx e = cis(p.at(1));
    r.a[0][0] = r.a[3][3] = {c, 0}; r.a[0][3] = Cx{0, -s} * Cx{e.re, -e.im}; r.a[3][0] = Cx{0, -s} * e; return r; }
  case qc::XXplusYY: {
    Mat r = ident(4); double c = std::cos(p.at(0) / 2), s = std::sin(p.at(0) / 2); Cx e = cis(p.at(1));
    r.a[1][1] = r.a[2][2] = {c, 0}; r.a[1][2] = Cx{0, -s} * e; r.a[2][1] = Cx{0, -s} * Cx{e.re, -e.im}; return r; }
  default: sym_assert(false, "reference: gate type without a matrix"); return ident(2);
  }
}
static inline void assertSame(const Mat &a, const Mat &b, double tol, const char *msg) {
  sym_assert(a.n == b.n, "dimension mismatch");
  for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) { sym_assert_near(a.a[i][j].re, b.a[i][j].re, tol, msg); sym_assert_near(a.a[i][j].im, b.a[i][j].im, tol, msg); }
}
static inline int numParams(qc::OpType t) {
  switch (t) {
  case qc::U: return 3;
  case qc::U2: case qc::XXminusYY: case qc::XXplusYY: return 2;
  case qc::GPhase: case qc::P: case qc::RX: case qc::RY: case qc::RZ: case qc::RXX: case qc::RYY: case qc::RZZ: case qc::RZX: return 1;
  default: return 0;
  }
}
static const qc::OpType kOne[] = {qc::I, qc::X, qc::Y, qc::Z, qc::H, qc::S, qc::Sdg, qc::T, qc::Tdg, qc::V, qc::Vdg, qc::SX, qc::SXdg, qc::P, qc::RX, qc::RY, qc::RZ, qc::U2, qc::U};
static const qc::OpType kTwo[] = {qc::SWAP, qc::iSWAP, qc::iSWAPdg, qc::DCX, qc::ECR, qc::Peres, qc::Peresdg, qc::RXX, qc::RYY, qc::RZZ, qc::RZX, qc::XXminusYY, qc::XXplusYY};
template <class T, size_t N> static qc::OpType pick(const char *n, const T (&a)[N]) { return a[sym_pin(sym_range(n, 0, N - 1))]; }
