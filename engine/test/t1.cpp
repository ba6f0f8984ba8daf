#include "sym.h"
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <memory>
#include <cmath>
HARNESS(vec) {
  std::vector<int> v{5, 3, 9, 1};
  auto i = sym_range("i", 0, 3);
  auto j = sym_range("j", 0, 3);
  std::swap(v[i], v[j]);
  int s = 0; for (auto x : v) s += x;
  sym_assert(s == 18, "sum");
  std::sort(v.begin(), v.end());
  sym_assert(v[0] == 1 && v[3] == 9, "sorted");
  sym_cover("end");
}
HARNESS(bug) {
  auto x = sym_u32("x"), y = sym_u32("y");
  if (x * y == 1234567 && x > 1 && y > 1 && x < 65536 && y < 65536) sym_assert(false, "found factors");
  sym_cover("end");
}
HARNESS(maps) {
  std::map<std::uint32_t, std::string> m;
  for (int k = 0; k < 3; ++k) m[(std::uint32_t)sym_range("k", 0, 4)] = std::string(1, (char)('a' + k));
  sym_assert(m.size() >= 1 && m.size() <= 3, "size");
  std::uint32_t prev = 0; bool first = true;
  for (auto &[k, v] : m) { if (!first) sym_assert(k > prev, "order"); prev = k; first = false; }
}
HARNESS(umaps) {
  std::unordered_map<std::uint32_t, int> m;
  for (int k = 0; k < 3; ++k) m[(std::uint32_t)sym_range("k", 0, 40)] = k;
  sym_assert(m.size() >= 1 && m.size() <= 3, "size");
}
HARNESS(strs) {
  std::string s;
  for (int k = 0; k < 3; ++k) s.push_back((char)sym_range("c", 'a', 'd'));
  std::stringstream ss(s);
  char c; int n = 0;
  while (ss.get(c)) { if (c == 'b') ++n; }
  sym_assert(n != 3, "bbb");
  if (s == "abc") sym_cover("abc");
  try { if (s.find("dd") != std::string::npos) throw std::runtime_error(s); } catch (std::runtime_error &e) { sym_cover("thrown"); sym_assert(std::string(e.what()).size() == 3, "sz"); }
}
HARNESS(sw) {
  auto x = sym_u8("x"); int r;
  switch (x) { case 1: r = 3; break; case 2: case 7: r = 9; break; case 200: r = 1; break; default: r = 0; }
  sym_assert(r != 1 || x == 200, "sw");
  sym_assert(r != 9 || x == 2, "sw2");
}
HARNESS(fp) {
  double a = sym_double("a"), b = sym_double("b");
  if (std::isfinite(a) && std::isfinite(b)) sym_assert(a + b == b + a, "comm");
  if (a > 0 && b > 0 && a < 1e100 && b < 1e100) sym_assert(a + b > a, "grows");
}
struct B { virtual int f(int) const = 0; virtual ~B() = default; };
struct D1 : B { int f(int x) const override { return x + 1; } };
struct D2 : B { int k; D2(int q) : k(q) {} int f(int x) const override { return x * k; } };
HARNESS(virt) {
  std::vector<std::unique_ptr<B>> v;
  for (int i = 0; i < 3; ++i) { if (sym_bool("b")) v.push_back(std::make_unique<D1>()); else v.push_back(std::make_unique<D2>((int)sym_range("k", 1, 5))); }
  int x = 1; for (auto &p : v) x = p->f(x);
  sym_assert(x != 24, "24");
  sym_assert(x <= 125, "max");
}
HARNESS(real) {
  sym_real_mode();
  double t = sym_real("t", -10, 10), u = sym_real("u", -10, 10);
  sym_assert_near(std::sin(t + u), std::sin(t) * std::cos(u) + std::cos(t) * std::sin(u), 1e-9, "add");
  sym_assert_near(std::cos(t / 2) * std::cos(t / 2), (1 + std::cos(t)) / 2, 1e-9, "half");
  sym_assert_near(std::cos(t + M_PI_2), -std::sin(t), 1e-9, "shift");
  if (std::abs(t - M_PI_4) < 1e-13) { sym_cover("pin"); sym_assert_near(std::cos(t), M_SQRT1_2, 1e-9, "pinned"); }
  if (t > 3) sym_assert_near(std::cos(t), std::cos(-t) + (u > 5 ? 0.01 : 0), 1e-9, "bug");
}
HARNESS(crash) { auto i = sym_range("i", 0, 1000000); int *p = (int *)(i == 777 ? 0 : &i); *p = 3; }
