// Random draws become inputs: every uniform draw asks the harness.
#pragma once
#include <random>
double vp_draw();
namespace std {
template <> template <> inline double uniform_real_distribution<double>::operator()<mt19937_64>(mt19937_64 &) { return vp_draw(); }
} // namespace std
