// C17: Linspace and AngleLinspace.
#include <limits>
#include <numbers>

#include "mc/mc.hpp"
#include "trajopt/util/TrajoptUtil.hpp"

using std::size_t;
using std::vector;
static const double kPi = std::numbers::pi;

static void CheckLin(double a, double b, size_t n) {
  auto r = trajopt::Linspace(a, b, n);
  mc::op();
  MC_CHECK(r.size() == n, "Linspace(%.17g, %.17g, %zu) has %zu values", a, b, n, r.size());
  double scale = std::max(std::abs(a), std::abs(b)), tol = 1e-12 * scale;
  for (size_t i = 1; i <= n; ++i) {
    double f = static_cast<double>(i) / static_cast<double>(n);
    double want = a + f * (b - a);
    double got = r[i - 1];
    MC_CHECK(std::abs(got - want) <= tol, "Linspace(%.17g, %.17g, %zu)[%zu] = %.17g, not %.17g", a, b, n, i - 1, got, want);
    if (i > 1) {
      // monotone wherever a step is larger than rounding
      double step = (b - a) / static_cast<double>(n);
      if (std::abs(step) > 4 * tol)
        MC_CHECK((got - r[i - 2]) * (b - a) > 0, "Linspace(%.17g, %.17g, %zu) is not monotone at %zu", a, b, n, i - 1);
    }
  }
}

static void CheckAngle(double a, double b, size_t n) {
  auto r = trajopt::AngleLinspace(a, b, n);
  mc::op();
  MC_CHECK(r.size() == n, "AngleLinspace(%.17g, %.17g, %zu) has %zu values", a, b, n, r.size());
  if (n == 0) return;
  double scale = std::max({std::abs(a), std::abs(b), 1.0}), tol = 1e-11 + 3e-14 * scale;
  double travel = r.back() - a;
  MC_CHECK(std::abs(travel) <= kPi + tol, "AngleLinspace(%.17g, %.17g, %zu) travels %.17g, more than half a turn", a, b, n, travel);
  long double turns = (static_cast<long double>(r.back()) - b) / (2 * std::numbers::pi_v<long double>);
  MC_CHECK(std::abs(turns - std::round(turns)) * 2 * kPi <= tol,
           "AngleLinspace(%.17g, %.17g, %zu) ends at %.17g, not an angle equivalent to the target", a, b, n, r.back());
  for (size_t i = 1; i <= n; ++i) {
    double want = a + travel * static_cast<double>(i) / static_cast<double>(n);
    MC_CHECK(std::abs(r[i - 1] - want) <= tol, "AngleLinspace(%.17g, %.17g, %zu)[%zu] = %.17g is not evenly spaced (%.17g)", a, b, n,
             i - 1, r[i - 1], want);
  }
}

static const size_t kN[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1024, 4097};

static void Lin() {
  static const double v[] = {0, -0.0, 1, -1, 2, -2, 0.5, 3, -3, 10, -10, 0.1, 0.3, -0.7, 1.0 / 3, 7.25, -16.5, 100, -100.125,
                             1e3, -1e3, 12345.678, 1e6, -1e6, 1e9, -1e9, 1e-3, -1e-3, 1e-6, 1e-9, -1e-9, 1e-12, 1e-100, -1e-100, 1e15, 1e100, -1e100};
  double a = mc::pick(v, "start"), b = mc::pick(v, "end");
  MC_LOG("Linspace(%.17g, %.17g, n) for every n", a, b);
  mc::state(mc::Hash().add(a).add(b));
  for (size_t n : kN) CheckLin(a, b, n);
  for (size_t n = 0; n <= 64; ++n) CheckLin(a, b, n);
}

// Start angle x base difference x whole turns on either side.
static void Angle() {
  static const double start[] = {0, 0.3, -0.3, 1.2, kPi / 2, -kPi / 2, kPi, -kPi, 2.9, -2.9, 3.1, -3.1, 3 * kPi / 4, -2.2};
  double a = mc::pick(start, "start");
  int parts = mc::thorough() ? 48 : 24;
  int k = mc::choose(2 * parts + 1, "difference") - parts;
  double eps = mc::pick({0.0, 1e-9, -1e-9, 1e-3, -1e-3});
  int ta = mc::pick({0, 1, -1, 2, -3, 5, -6, 20});
  MC_LOG("AngleLinspace from %.17g (%+d turns) by %d/%d of half a turn, every n and target turn", a, ta, k, parts);
  a += 2 * kPi * ta;
  for (int tb : {0, 1, -1, 2, -2, 3, -4, 6, -7, 40}) {
    double b = a - 2 * kPi * ta + kPi * k / parts + eps + 2 * kPi * tb;
    mc::state(mc::Hash().add(a).add(b));
    for (size_t n : {0, 1, 2, 3, 4, 7, 10, 33}) CheckAngle(a, b, n);
  }
}

// Raw representations, including multiples of half a turn made in different ways.
static void AngleRaw() {
  static const double v[] = {0, -0.0, kPi, -kPi, 2 * kPi, -2 * kPi, 3 * kPi, -3 * kPi, 4 * kPi, 5 * kPi, -5 * kPi, 100 * kPi, -100 * kPi,
                             kPi / 2, -kPi / 2, 3 * kPi / 2, -3 * kPi / 2, 5 * kPi / 2, 7 * kPi / 4, 1, -1, 3.14, -3.14, 3.15, -3.15, 6.28, -6.28,
                             6.3, 9.42, 9.43, 12.5, -12.6, 1e-9, -1e-9, 1e-300, 1000, -1000, 3.1415926535897927, -3.1415926535897936, 1e5, -1e5, 1e7, -1e9, 3e9,
                             1.4e10, -3e10, 1e12, -1e12, 1e-5, 3.1415, -3.1416};
  double a = mc::pick(v, "start"), b = mc::pick(v, "end");
  MC_LOG("AngleLinspace(%.17g, %.17g, n)", a, b);
  mc::state(mc::Hash().add(a).add(b).add((uint64_t)1));
  for (size_t n : kN) CheckAngle(a, b, n);
}

// Counts beyond 15, 16 and 17 bits.
static void Large() {
  double a = mc::pick({0.0, -3.5, 1e6, 0.3}), b = mc::pick({0.0, 7.25, -1e6, 1e-9, 40.0});
  size_t n = static_cast<size_t>(mc::pick({32767, 32768, 65535, 65536, 70000, 200001, 16777226}));
  if (n > 1000000 && !mc::thorough() && !(a == -3.5 && b == 7.25)) throw mc::Prune{};
  MC_LOG("from %.17g to %.17g, %zu values", a, b, n);
  mc::state(mc::Hash().add(a).add(b).add((uint64_t)n));
  CheckLin(a, b, n);
  CheckAngle(a, b, n);
}

// Histories: results depend on the arguments alone.
static void Histories() {
  struct Q {
    bool angle;
    double a, b;
    size_t n;
  };
  static const Q q[] = {{false, 0, 2, 2}, {false, 0, 2, 3}, {false, 1, 2, 2}, {false, 0, -2, 2}, {false, 2, 0, 0}, {true, 0, 2, 2}, {true, 0, 4, 2},
                        {true, 3, -3, 2}, {true, -3, 3, 2}, {true, 0, 4, 3}, {true, 7, 4, 2}, {true, 1, 1, 1}};
  int depth = mc::thorough() ? 4 : 3;
  mc::Hash h;
  for (int i = 0; i < depth; ++i) {
    int k = mc::choose(12);
    h.add(static_cast<uint64_t>(k));
    mc::state(h);
    MC_LOG("%s(%g, %g, %zu)", q[k].angle ? "AngleLinspace" : "Linspace", q[k].a, q[k].b, q[k].n);
    if (q[k].angle) CheckAngle(q[k].a, q[k].b, q[k].n);
    else CheckLin(q[k].a, q[k].b, q[k].n);
  }
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"linspace", Lin, 2}, {"angle-turns", Angle, 2}, {"angle-representations", AngleRaw, 2}, {"large-counts", Large, 2}, {"histories", Histories, 2}});
}
