// Decision-diagram arithmetic against dense linear algebra.
#include "ddgen.h"
static DM denseIn(dd::Package &p, const dd::mEdge &e, unsigned n) { (void)p; return dense(e, n); }
static Cx cx(dd::ComplexValue v) { return {v.r, v.i}; }
static bool near(Cx a, Cx b, double t = 1e-9) { return std::fabs(a.re - b.re) < t && std::fabs(a.im - b.im) < t; }
static Cx traceOf(const DM &m) { Cx s; for (size_t i = 0; i < m.size(); ++i) s = s + m[i][i]; return s; }
static double mag(Cx a) { return std::sqrt(a.re * a.re + a.im * a.im); }
// ---------------------------------------------------------------- matrices
HARNESS(ddMatOps) {
  const unsigned n = sym_tier() ? pin("n", 1, 3) : 2 + pin("n", 0, 1);
  const DM a = anyM(n), b = anyM(n, "matrix", n == 3 && !sym_tier() ? 5 : 13);
  dd::Package p(n, smallCfg());
  const auto ea = p.makeDDFromMatrix(cmat(a)), eb = p.makeDDFromMatrix(cmat(b));
  sym_assert(nearM(dense(ea, n), a), "a matrix is not built as given");
  sym_assert(nearM(dense(p.add(ea, eb), n), plus(a, b)), "the sum is wrong");
  sym_assert(nearM(dense(p.multiply(ea, eb), n), mul(a, b), 1e-8), "the product is wrong");
  sym_assert(nearM(dense(p.multiply(eb, ea), n), mul(b, a), 1e-8), "the product is wrong");
  sym_assert(nearM(dense(p.conjugateTranspose(ea), n), adj(a)), "the adjoint is wrong");
  sym_assert(nearM(dense(p.add(eb, ea), n), plus(a, b)), "the sum is wrong the other way round");
  sym_assert(nearM(dense(p.multiply(ea, eb), n), mul(a, b), 1e-8) && nearM(dense(p.add(ea, eb), n), plus(a, b)), "a repeated operation gives another result");
  sym_assert(p.conjugateTranspose(p.conjugateTranspose(ea)) == ea, "the adjoint of the adjoint is another matrix");
  sym_cover("binary");
}
HARNESS(ddMatVec) {
  const unsigned n = sym_tier() ? 3 : 2 + pin("n", 0, 1);
  const bool small = n == 3 && !sym_tier();
  const DM a = anyM(n, "matrix", small ? 5 : 13);
  const SV v = anyV(n), w = anyV(n, "vector", small ? 3 : 7);
  dd::Package p(n, smallCfg());
  const auto ea = p.makeDDFromMatrix(cmat(a));
  const auto ev = p.makeStateFromVector(cvec(v)), ew = p.makeStateFromVector(cvec(w));
  sym_assert(nearSV(dense(p.multiply(ea, ev), n), mul(a, v), 1e-8), "the matrix-vector product is wrong");
  SV s = v; for (size_t i = 0; i < s.size(); ++i) s[i] = s[i] + w[i];
  sym_assert(nearSV(dense(p.add(ev, ew), n), s), "the sum of vectors is wrong");
  SV c = v; for (auto &x : c) x.im = -x.im;
  sym_assert(nearSV(dense(p.conjugate(ev), n), c), "the conjugate of a vector is wrong");
  Cx ip; for (size_t i = 0; i < v.size(); ++i) ip = ip + Cx{v[i].re, -v[i].im} * w[i];
  sym_assert(near(cx(p.innerProduct(ev, ew)), ip, 1e-8), "the inner product is wrong");
  sym_assert(std::fabs(p.fidelity(ev, ew) - (ip.re * ip.re + ip.im * ip.im)) < 1e-8, "the fidelity is wrong");
  const DM h = plus(a, adj(a));
  if (!ev.isZeroTerminal()) {
    const auto eh = p.makeDDFromMatrix(cmat(h));
    if (!eh.isZeroTerminal()) {
      const SV hv = mul(h, v);
      Cx x; for (size_t i = 0; i < v.size(); ++i) x = x + Cx{v[i].re, -v[i].im} * hv[i];
      sym_assert(std::fabs(p.expectationValue(eh, ev) - x.re) < 1e-8, "the expectation value is wrong");
    }
  }
  dd::SparsePVec probs;
  double want = 0;
  const unsigned pm = pin("perm", 0, n == 2 && !sym_tier() ? 1 : 2);
  qc::Permutation perm;
  if (pm == 1) for (unsigned q = 0; q < n; ++q) perm[q] = n - 1 - q;
  if (pm == 2) for (unsigned q = 0; q < n; ++q) perm[q] = (q + 1) % n;
  for (unsigned i = 0; i < v.size(); ++i) probs[i] = (w[i].re * w[i].re + w[i].im * w[i].im);
  for (unsigned i = 0; i < v.size(); ++i) { unsigned l = i; if (pm) { l = 0; for (unsigned q = 0; q < n; ++q) l |= (i >> q & 1U) << perm[q]; } want += mag(v[i]) * mag(w[l]); }
  sym_assert(std::fabs(dd::Package::fidelityOfMeasurementOutcomes(ev, probs, perm) - want) < 1e-8, "the fidelity of measurement outcomes is wrong");
  sym_cover("vectors");
}
HARNESS(ddUnary) {
  const unsigned n = sym_tier() ? pin("n", 1, 4) : pin("n", 1, 3);
  const DM a = anyM(n);
  dd::Package p(n + 1, smallCfg());
  const auto e = p.makeDDFromMatrix(cmat(a));
  const auto m = e.getMatrix(n);
  const auto sp = e.getSparseMatrix(n);
  for (unsigned i = 0; i < a.size(); ++i) for (unsigned j = 0; j < a.size(); ++j) {
    const std::complex<double> w{a[i][j].re, a[i][j].im};
    sym_assert(std::abs(m.at(i).at(j) - w) < 1e-9, "getMatrix gives another entry");
    sym_assert(sp.count({i, j}) ? std::abs(sp.at({i, j}) - w) < 1e-9 : std::abs(w) < 1e-9, "getSparseMatrix gives another entry");
    sym_assert(std::abs(e.getValueByIndex(n, i, j) - w) < 1e-9, "getValueByIndex gives another entry");
  }
  sym_assert(near(cx(p.trace(e, n)), times({1.0 / (1U << n), 0}, {{traceOf(a)}})[0][0], 1e-9), "the trace is wrong");
  const unsigned el = pin("eliminate", 0, (1U << n) - 1);
  std::vector<bool> elim(n);
  unsigned k = 0;
  for (unsigned q = 0; q < n; ++q) { elim[q] = el >> q & 1; k += elim[q]; }
  const auto pt = p.partialTrace(e, elim);
  DM t = zeroM(n - k);
  const auto comp = [&](unsigned i) { unsigned r = 0, o = 0; for (unsigned q = 0; q < n; ++q) if (!elim[q]) r |= (i >> q & 1U) << o++; return r; };
  for (unsigned i = 0; i < a.size(); ++i) for (unsigned j = 0; j < a.size(); ++j) if ((i & el) == (j & el)) t[comp(i)][comp(j)] = t[comp(i)][comp(j)] + times({1.0 / (1U << k), 0}, {{a[i][j]}})[0][0];
  sym_assert(nearM(dense(pt, n - k), t), "the partial trace is wrong");
  sym_cover(el ? "eliminated" : "none");
}
HARNESS(ddClose) {
  const unsigned n = sym_tier() ? 3 : pin("n", 1, 3);
  DM a = anyM(n, "matrix", 13);
  if (pinB("perturb")) { const double ep = pinB("small") ? 1e-8 : 0.05; const unsigned i = pin("row", 0, (1U << n) - 1), j = pin("col", 0, (1U << n) - 1); a[i][j] = a[i][j] + Cx{ep, 0}; }
  dd::Package p(n, smallCfg());
  const auto e = p.makeDDFromMatrix(cmat(a));
  const bool got = p.isCloseToIdentity(e);
  bool zero = true, diag = true, flat = true;
  for (unsigned i = 0; i < a.size(); ++i) for (unsigned j = 0; j < a.size(); ++j) { if (mag(a[i][j]) > 1e-9) zero = false; if (i != j && mag(a[i][j]) > 1e-3) diag = false; }
  for (unsigned i = 1; i < a.size(); ++i) if (mag(a[i][i] - a[0][0]) > 1e-3) flat = false;
  bool exact = true;
  for (unsigned i = 0; i < a.size(); ++i) for (unsigned j = 0; j < a.size(); ++j) if (mag(a[i][j] - (i == j ? a[0][0] : Cx{0, 0})) > 1e-12) exact = false;
  if (got) {
    sym_assert(diag, "a matrix with off-diagonal entries counts as close to the identity");
    if (!flat) { // only an ancillary qubit that is projected to 0 is tolerated
      for (unsigned i = 0; i < a.size(); ++i) sym_assert(mag(a[i][i]) < 1e-3 || mag(a[i][i] - a[0][0]) < 1e-3, "a matrix with different diagonal entries counts as close to the identity");
    }
    sym_cover("close");
  }
  if (exact && !zero) { sym_assert(got, "the identity does not count as close to the identity"); sym_cover("identity"); }
  sym_assert(!(zero && got), "the zero matrix counts as close to the identity");
}
HARNESS(ddKron) {
  dd::Package p(4, smallCfg());
  const unsigned nx = 1 + pin("nx", 0, 1), rounds = 2;
  const bool vec = pinB("vectors");
  if (vec) {
    const SV x = anyV(nx, "x");
    for (unsigned r = 0; r < 2; ++r) {
      const unsigned ny = pin("ny", 1, 4 - nx);
      if (ny > 2) sym_assume(sym_tier());
      const SV y = anyV(ny, "y", r && !sym_tier() ? 3 : 7);
      const auto e = p.kronecker(p.makeStateFromVector(cvec(x)), p.makeStateFromVector(cvec(y)), ny);
      SV w(1U << (nx + ny));
      for (unsigned i = 0; i < w.size(); ++i) w[i] = x[i >> ny] * y[i & ((1U << ny) - 1)];
      sym_assert(nearSV(dense(e, nx + ny), w), "the Kronecker product of vectors is wrong");
    }
    sym_cover("vectors");
    return;
  }
  const DM x = anyM(nx, "x");
  for (unsigned r = 0; r < rounds; ++r) {
    const unsigned ny = pin("ny", 1, 4 - nx);
    if (ny > 2) sym_assume(sym_tier());
    const unsigned hi = r ? (sym_tier() ? 6 : 2) : 13;
    const DM y = anyM(ny, "y", hi);
    const auto e = p.kronecker(p.makeDDFromMatrix(cmat(x)), p.makeDDFromMatrix(cmat(y)), ny);
    DM w = zeroM(nx + ny);
    for (unsigned i = 0; i < w.size(); ++i) for (unsigned j = 0; j < w.size(); ++j) w[i][j] = x[i >> ny][j >> ny] * y[i & ((1U << ny) - 1)][j & ((1U << ny) - 1)];
    sym_assert(nearM(dense(e, nx + ny), w), "the Kronecker product of matrices is wrong");
  }
  sym_cover("matrices");
}
HARNESS(ddReduce) {
  const unsigned n = sym_tier() ? pin("n", 1, 3) : pin("n", 2, 3);
  const DM a = anyM(n, "matrix", n == 3 ? 8 : 13);
  const unsigned mask = pin("mask", 0, (1U << n) - 1);
  const bool reg = pinB("regular");
  dd::Package p(n, smallCfg());
  std::vector<bool> m(n);
  for (unsigned q = 0; q < n; ++q) m[q] = mask >> q & 1;
  auto e = p.makeDDFromMatrix(cmat(a));
  p.incRef(e);
  if (pinB("ancilla")) {
    const auto r = p.reduceAncillae(e, m, reg);
    DM w = a;
    for (unsigned i = 0; i < a.size(); ++i) for (unsigned j = 0; j < a.size(); ++j) if ((reg ? j : i) & mask) w[i][j] = {0, 0};
    const DM d = dense(r, n);
    for (unsigned i = 0; i < a.size(); ++i) for (unsigned j = 0; j < a.size(); ++j)
      sym_assert(near(d[i][j], w[i][j]), "reducing ancillae does not project their inputs to zero");
    sym_cover("ancilla");
  } else {
    const bool norm = pinB("magnitudes");
    const auto r = p.reduceGarbage(e, m, reg, norm);
    const DM d = dense(r, n);
    for (unsigned i = 0; i < a.size(); ++i) for (unsigned j = 0; j < a.size(); ++j) {
      double want = 0;
      if (!((reg ? i : j) & mask)) for (unsigned g = mask;; g = (g - 1) & mask) { const Cx x = reg ? a[i | g][j] : a[i][j | g]; want += x.re * x.re + x.im * x.im; if (!g) break; }
      sym_assert(std::fabs(mag(d[i][j]) - std::sqrt(want)) < 1e-7, "reducing garbage does not sum over its outputs");
      if (norm) sym_assert(near(d[i][j], {std::sqrt(want), 0}, 1e-7), "entries are not magnitudes");
      if (!mask && !norm) sym_assert(near(d[i][j], a[i][j]), "reducing no garbage changes the matrix");
    }
    sym_cover("garbage");
  }
}
HARNESS(ddReduceV) {
  const unsigned n = sym_tier() ? pin("n", 1, 4) : pin("n", 1, 3);
  const SV a = anyV(n);
  const unsigned mask = pin("mask", 0, (1U << n) - 1);
  const bool norm = pinB("magnitudes");
  dd::Package p(n, smallCfg());
  std::vector<bool> m(n);
  for (unsigned q = 0; q < n; ++q) m[q] = mask >> q & 1;
  auto e = p.makeStateFromVector(cvec(a));
  const auto r = p.reduceGarbage(e, m, norm);
  const SV d = dense(r, n);
  for (unsigned i = 0; i < a.size(); ++i) {
    double want = 0;
    if (!(i & mask)) for (unsigned g = mask;; g = (g - 1) & mask) { const Cx x = a[i | g]; want += x.re * x.re + x.im * x.im; if (!g) break; }
    sym_assert(std::fabs(mag(d[i]) - std::sqrt(want)) < 1e-7, "reducing garbage does not sum over its values");
    if (norm) sym_assert(near(d[i], {std::sqrt(want), 0}, 1e-7), "amplitudes are not magnitudes");
    if (!mask && !norm) sym_assert(near(d[i], a[i]), "reducing no garbage changes the state");
  }
  sym_cover("garbage");
}
HARNESS(ddCopy) { // deleting an edge, copying to another package
  const unsigned n = sym_tier() ? pin("n", 1, 4) : pin("n", 1, 3);
  dd::Package p(n, smallCfg()), q(n, smallCfg());
  if (pinB("matrix")) {
    const DM a = anyM(n);
    auto e = p.makeDDFromMatrix(cmat(a));
    sym_assert(nearM(dense(q.transfer(e), n), a), "a matrix copied to another package is another matrix");
    sym_assert(q.transfer(e) == q.makeDDFromMatrix(cmat(a)), "a copied matrix is not the one built there");
    sym_cover("matrix");
  } else {
    const SV a = anyV(n);
    auto e = p.makeStateFromVector(cvec(a));
    sym_assert(nearSV(dense(q.transfer(e), n), a), "a vector copied to another package is another vector");
    sym_assert(q.transfer(e) == q.makeStateFromVector(cvec(a)), "a copied vector is not the one built there");
    const unsigned l = pin("level", 0, n - 1), k = pin("edge", 0, 1);
    SV w = a;
    for (unsigned i = 0; i < w.size(); ++i) if ((i >> l & 1U) == k) w[i] = {0, 0};
    sym_assert(nearSV(dense(p.deleteEdge(e, (dd::Qubit)l, k), n), w), "deleting an edge does not remove exactly its amplitudes");
    std::vector<std::complex<double>> acc(a.size(), {1, 2});
    e.addToVector(acc);
    for (unsigned i = 0; i < a.size(); ++i) sym_assert(std::abs(acc[i] - std::complex<double>(1 + a[i].re, 2 + a[i].im)) < 1e-9, "addToVector adds other amplitudes");
    sym_cover("vector");
  }
}
