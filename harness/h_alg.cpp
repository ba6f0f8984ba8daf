// Algorithm generators.
#include "sem.h"
#include "algorithms/BernsteinVazirani.hpp"
#include "algorithms/GHZState.hpp"
#include "algorithms/Grover.hpp"
#include "algorithms/QFT.hpp"
#include "algorithms/QPE.hpp"
#include "algorithms/RandomCliffordCircuit.hpp"
#include "algorithms/StatePreparation.hpp"
#include "algorithms/WState.hpp"
#include <cmath>
#include <complex>
using qc::QuantumComputation;
static const double kPi = 3.14159265358979323846;
static double prob(const Branch &b) { double p = 0; for (const auto &a : b.v) p += a.re * a.re + a.im * a.im; return p; }
static std::vector<double> outcomes(const QuantumComputation &c, unsigned bits) {
  Ens e{Branch{0, basis(c.getNqubits(), 0)}};
  applyCirc(e, c);
  std::vector<double> p(1U << bits, 0.);
  for (const auto &b : e) { sym_assert(b.c < p.size(), "a bit beyond the register is measured"); p[b.c] += prob(b); }
  return p;
}
static bool near(double a, double b) { return std::fabs(a - b) < 1e-7; }
// the layout: the ancilla is the last logical qubit and garbage, the others are in order
static void checkFlag(const QuantumComputation &c, unsigned data) {
  sym_assert(c.getNqubits() == data + 1, "the number of qubits is wrong");
  sym_assert(c.initialLayout.at(0) == data && c.outputPermutation.find(0) == c.outputPermutation.end() && c.logicalQubitIsGarbage(data), "the flag qubit is not the last logical one and garbage");
  for (unsigned i = 1; i <= data; ++i) sym_assert(c.initialLayout.at(i) == i - 1 && c.outputPermutation.at(i) == i - 1 && !c.logicalQubitIsGarbage(i - 1), "the layout of the data qubits is wrong");
}
HARNESS(algBV) {
  const unsigned n = pin("n", 1, sym_tier() ? 9 : 7);
  const std::uint64_t s = sym_range("string", 0, (1U << n) - 1);
  qc::BVBitString bits;
  for (unsigned i = 0; i < n; ++i) if ((s >> i) & 1) bits.set(i);
  const std::uint64_t v = sym_pin(s);
  const unsigned how = pin("kind", 0, 3);
  unsigned m = n;
  if (how >= 2) { m = 1; for (unsigned i = 0; i < n; ++i) if (v >> i & 1) m = i + 1; }
  const QuantumComputation c = how == 0 ? qc::createBernsteinVazirani(bits, n) : how == 1 ? qc::createIterativeBernsteinVazirani(bits, n) : how == 2 ? qc::createBernsteinVazirani(bits) : qc::createIterativeBernsteinVazirani(bits);
  if (how % 2 == 0) checkFlag(c, m); else checkFlag(c, 1);
  sym_assert(c.getNcbits() == m, "the number of bits is wrong");
  const auto p = outcomes(c, m);
  sym_assert(near(p[v], 1), "the hidden string is not measured with certainty");
  std::string name = how % 2 ? "iterative_bv_" : "bv_";
  for (unsigned i = m; i-- > 0;) name += (v >> i & 1) ? '1' : '0';
  sym_assert(c.getName() == name, "the name does not show the hidden string");
  sym_cover("bv");
}
HARNESS(algGrover) {
  const unsigned n = pin("n", 1, sym_tier() ? 7 : 5);
  const std::uint64_t s = sym_range("target", 0, (1U << n) - 1);
  qc::GroverBitString bits;
  for (unsigned i = 0; i < n; ++i) if ((s >> i) & 1) bits.set(i);
  const std::uint64_t v = sym_pin(s);
  const auto c = qc::createGrover(n, bits);
  sym_assert(c.getNqubits() == n + 1 && c.getNcbits() == n, "the size of the circuit is wrong");
  const double th = std::asin(std::pow(2., -0.5 * n));
  // the number of iterations that is best (or as good as any other)
  const auto k = qc::computeNumberOfIterations(n);
  const double want = std::pow(std::sin((2. * k + 1.) * th), 2);
  const double less = std::pow(std::sin((2. * k - 1.) * th), 2), more = std::pow(std::sin((2. * k + 3.) * th), 2);
  sym_assert(n < 3 || (want > 0.9 && (want + 1e-9 > less || less > 0.9) && (want + 1e-9 > more || more > 0.9)), "the number of iterations is wrong");
  const auto p = outcomes(c, n);
  for (unsigned x = 0; x < p.size(); ++x) sym_assert(near(p[x], x == v ? want : (1 - want) / (p.size() - 1)), "the probability of an outcome is wrong");
  sym_cover("grover");
}
static unsigned rev(unsigned x, unsigned n) { unsigned r = 0; for (unsigned i = 0; i < n; ++i) if (x >> i & 1) r |= 1U << (n - 1 - i); return r; }
HARNESS(algQFT) { // on all inputs: the Fourier transform, qubit 0 being the most significant one
  const unsigned n = pin("n", 0, sym_tier() ? 6 : 5);
  const auto c = qc::createQFT(n, false);
  const auto m = qc::createQFT(n, true);
  sym_assert(c.getNqubits() == n && c.getNcbits() == n && m.getNcbits() == n, "the size of the circuit is wrong");
  const unsigned N = 1U << n;
  const auto u = unitary(c, n);
  for (unsigned x = 0; x < N; ++x) for (unsigned y = 0; y < N; ++y) {
    const double a = 2 * kPi * rev(x, n) * rev(y, n) / N;
    sym_assert(near(u[x][y].re, std::cos(a) / std::sqrt(N)) && near(u[x][y].im, std::sin(a) / std::sqrt(N)), "the circuit is not the Fourier transform");
  }
  // measured: the same distribution for a superposition of two inputs
  const unsigned x0 = n ? pin("x", 0, N - 1) : 0, x1 = n ? pin("x", 0, N - 1) : 0;
  SV in(N); in[x0] = {0.6, 0}; in[x1] = in[x1] + Cx{0, 0.8};
  if (n == 0) return;
  Ens e{Branch{0, in}};
  applyCirc(e, m);
  std::vector<double> p(N, 0.);
  for (const auto &b : e) p[b.c] += prob(b);
  for (unsigned y = 0; y < N; ++y) {
    Cx a{0, 0};
    for (unsigned x = 0; x < N; ++x) { const double t = 2 * kPi * rev(x, n) * rev(y, n) / N; a = a + in[x] * Cx{std::cos(t), std::sin(t)}; }
    sym_assert(near(p[y], (a.re * a.re + a.im * a.im) / N), "the measured Fourier transform has other probabilities");
  }
  for (unsigned i = 0; i < n; ++i) sym_assert(m.outputPermutation.at(i) == n - 1 - i, "the output permutation of the measured Fourier transform is wrong");
  sym_cover("qft");
}
// one qubit that is reset after every measurement: the i-th reset brings in the next input
static void streamed(Ens &e, const QuantumComputation &c, const std::vector<SV> &inputs, qc::Qubit q) {
  size_t next = 1;
  for (const auto &op : c) {
    applyOp(e, *op);
    if (op->getType() == qc::Reset) {
      sym_assert(next < inputs.size(), "more resets than inputs");
      for (auto &b : e) {
        SV v(b.v.size());
        for (unsigned i = 0; i < v.size(); ++i) if (!(i >> q & 1)) { v[i] = b.v[i] * inputs[next][0]; v[i | 1U << q] = b.v[i] * inputs[next][1]; }
        b.v = v;
      }
      ++next;
    }
  }
  sym_assert(next == inputs.size(), "fewer resets than inputs");
}
HARNESS(algIterativeQFT) {
  const unsigned n = pin("n", 1, sym_tier() ? 6 : 5);
  std::vector<SV> inputs;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned d = pin("input", 0, 3);
    inputs.push_back(prodState(1, {d}));
  }
  const auto c = qc::createIterativeQFT(n);
  sym_assert(c.getNqubits() == 1 && c.getNcbits() == n, "the size of the circuit is wrong");
  Ens e{Branch{0, inputs[0]}};
  streamed(e, c, inputs, 0);
  const unsigned N = 1U << n;
  std::vector<double> p(N, 0.);
  for (const auto &b : e) p[b.c] += prob(b);
  for (unsigned y = 0; y < N; ++y) {
    Cx a{0, 0};
    for (unsigned x = 0; x < N; ++x) {
      Cx f{1, 0};
      for (unsigned i = 0; i < n; ++i) f = f * inputs[i][x >> i & 1];
      const double t = 2 * kPi * rev(x, n) * rev(y, n) / N;
      a = a + f * Cx{std::cos(t), std::sin(t)};
    }
    sym_assert(near(p[y], (a.re * a.re + a.im * a.im) / N), "the iterative Fourier transform has other probabilities");
  }
  sym_cover("iterative qft");
}
HARNESS(algQPE) {
  const unsigned n = pin("n", 1, sym_tier() ? 7 : 5);
  const int num = (int)pin("numerator", 0, sym_tier() ? 63 : 31) - (sym_tier() ? 8 : 4); // of 2^-4 and off the grid
  const unsigned off = pin("off", 0, 1);
  const double lambda = num / 16. * 1. + (off ? 0.03 : 0.);
  const bool it = pinB("iterative");
  const auto c = it ? qc::createIterativeQPE(lambda, n) : qc::createQPE(lambda, n);
  checkFlag(c, it ? 1 : n);
  sym_assert(c.getNcbits() == n, "the number of bits is wrong");
  const auto p = outcomes(c, n);
  const unsigned N = 1U << n;
  for (unsigned y = 0; y < N; ++y) {
    Cx a{0, 0};
    for (unsigned k = 0; k < N; ++k) { const double t = kPi * k * (lambda - 2. * y / N); a = a + Cx{std::cos(t), std::sin(t)}; }
    sym_assert(near(p[y], (a.re * a.re + a.im * a.im) / N / N), "the estimated phase has other probabilities");
  }
  sym_cover("qpe");
}
HARNESS(algStates) {
  const unsigned n = pin("n", 1, sym_tier() ? 8 : 6);
  const auto g = unitary(qc::createGHZState(n), n)[0], w = unitary(qc::createWState(n), n)[0];
  for (unsigned x = 0; x < g.size(); ++x) {
    sym_assert(near(g[x].re, (x == 0 || x + 1 == g.size()) ? std::sqrt(0.5) : 0) && near(g[x].im, 0), "the circuit does not prepare a GHZ state");
    sym_assert(near(w[x].re, (x & (x - 1)) == 0 && x ? 1 / std::sqrt(n) : 0) && near(w[x].im, 0), "the circuit does not prepare a W state");
  }
  sym_cover("states");
}
HARNESS(algPrepare) {
  const unsigned n = pin("n", 0, 3);
  std::vector<std::complex<double>> a(1U << n);
  double norm = 0;
  static const std::complex<double> kAmp[] = {{0, 0}, {1, 0}, {0, -2}, {-1, 0.5}, {-0.3, -0.4}};
  const unsigned kinds = n == 3 ? (sym_tier() ? 2 : 1) : n == 2 ? (sym_tier() ? 4 : 3) : 4;
  static const unsigned kPick[][5] = {{0, 1, 2, 3, 4}, {0, 3, 2, 1, 4}, {2, 4, 1, 0, 3}};
  const unsigned perm = pin("palette", 0, 2);
  for (auto &x : a) { x = kAmp[kPick[perm][pin("amp", 0, kinds)]]; norm += std::norm(x); }
  if (norm == 0) return;
  const bool scaled = pinB("normalised");
  if (scaled) for (auto &x : a) x /= std::sqrt(norm);
  bool threw = false;
  try {
    const auto c = qc::createStatePreparationCircuit(a);
    sym_assert(c.getNqubits() == n, "the number of qubits is wrong");
    const auto u = unitary(c, n)[0];
    for (unsigned x = 0; x < a.size(); ++x) sym_assert(near(u[x].re, a[x].real()) && near(u[x].im, a[x].imag()), "the circuit does not prepare the state");
    sym_cover("prepared");
  } catch (const std::invalid_argument &) { threw = true; sym_cover("rejected"); }
  sym_assert(threw == (!scaled && !near(norm, 1)), "amplitudes are rejected exactly if they are not normalised");
}
HARNESS(algPrepareArgs) {
  const unsigned n = pin("size", 0, 9);
  std::vector<std::complex<double>> a(n);
  if (n) a[pin("one", 0, n - 1)] = 1;
  bool threw = false;
  try { (void)qc::createStatePreparationCircuit(a); } catch (const std::invalid_argument &) { threw = true; }
  sym_assert(threw == (n == 0 || (n & (n - 1)) != 0), "sizes are rejected exactly if they are no powers of two");
  sym_cover("size");
}
HARNESS(algRandom) { // random circuits: determined by the seed, of the requested kind
  const unsigned n = pin("n", 1, 3), seed = pin("seed", 1, sym_tier() ? 200 : 40);
  const unsigned what = pin("what", 0, 5);
  auto make = [&] { return what == 0 ? qc::createRandomCliffordCircuit(n, 3, seed) : what == 1 ? qc::createBernsteinVazirani((qc::Qubit)n, (std::size_t)seed) : what == 2 ? qc::createIterativeBernsteinVazirani((qc::Qubit)n, (std::size_t)seed) : what == 3 ? qc::createGrover((qc::Qubit)n, (std::size_t)seed) : what == 4 ? qc::createQPE((qc::Qubit)n, true, (std::size_t)seed) : qc::createIterativeQPE((qc::Qubit)n, false, (std::size_t)seed); };
  const auto a = make(), b = make();
  sym_assert(a == b && a.getName() == b.getName(), "the same seed gives another circuit");
  if (what == 0) { // the conjugate of every Pauli is a Pauli
    const auto u = unitary(a, n);
    const unsigned N = 1U << n;
    for (unsigned q = 0; q < n; ++q) for (unsigned k = 0; k < 2; ++k) {
      // U P U^dagger has a single entry of modulus one in each row
      for (unsigned r = 0; r < N; ++r) {
        unsigned nz = 0;
        for (unsigned s = 0; s < N; ++s) {
          Cx z{0, 0};
          for (unsigned x = 0; x < N; ++x) {
            const unsigned y = k ? x : x ^ (1U << q);
            const double sg = k && (x >> q & 1) ? -1 : 1;
            Cx f{u[y][s].re, -u[y][s].im};
            z = z + u[x][r] * f * Cx{sg, 0};
          }
          const double m = z.re * z.re + z.im * z.im;
          if (m > 1e-9) { ++nz; sym_assert(near(m, 1), "a random Clifford circuit does not map Paulis to Paulis"); }
        }
        sym_assert(nz == 1, "a random Clifford circuit does not map Paulis to Paulis");
      }
    }
    sym_cover("clifford");
    return;
  }
  const auto p = outcomes(a, n);
  double best = 0;
  for (auto x : p) best = std::max(best, x);
  if (what <= 2 || what == 4) sym_assert(near(best, 1), "the outcome of a random instance is not certain");
  if (what == 3 && n >= 3) sym_assert(best > 0.9, "the target of a random instance is not found");
  if (what == 5) sym_assert(best < 0.999 && best > 0.4, "a random inexact phase is exact");
  sym_cover("random");
}
