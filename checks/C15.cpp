// C15: conversion of a solution to a trajectory.
#include <limits>

#include "mc/mc.hpp"
#include "trajopt/solution/SwerveSolution.hpp"
#include "trajopt/trajectory/HolonomicTrajectory.hpp"

using namespace trajopt;
using std::size_t;
using std::vector;

static bool Same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool Same(const vector<double>& a, const vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!Same(a[i], b[i])) return false;
  return true;
}

static SwerveSolution Make(size_t samples, size_t modules, double tag) {
  SwerveSolution s;
  double n = tag;
  auto fill = [&](vector<double>& v) {
    for (size_t i = 0; i < samples; ++i) v.push_back(n += 0.37);
  };
  fill(s.x);
  fill(s.y);
  fill(s.vx);
  fill(s.vy);
  fill(s.omega);
  fill(s.ax);
  fill(s.ay);
  fill(s.alpha);
  for (size_t i = 0; i < samples; ++i) {
    s.thetacos.push_back(cos(0.9 * static_cast<double>(i) + tag));
    s.thetasin.push_back(sin(0.9 * static_cast<double>(i) + tag));
    auto& fx = s.moduleFX.emplace_back();
    auto& fy = s.moduleFY.emplace_back();
    for (size_t j = 0; j < modules; ++j) {
      fx.push_back(n += 0.37);
      fy.push_back(-(n += 0.37));
    }
  }
  for (size_t i = 1; i < samples; ++i) s.dt.push_back(0.02 * static_cast<double>(i % 5 + 1));
  return s;
}

static void Verify(const SwerveSolution& s, const HolonomicTrajectory& t, const char* what) {
  mc::op();
  MC_CHECK(t.samples.size() == s.x.size(), "%s: %zu samples for %zu poses", what, t.samples.size(), s.x.size());
  long double ts = 0, mag = 0;
  for (size_t i = 0; i < s.x.size(); ++i) {
    auto& q = t.samples[i];
    if (i > 0) {
      ts += s.dt[i - 1];
      mag += std::abs(s.dt[i - 1]);
    }
    if (i == 0) MC_CHECK(q.timestamp == 0.0, "%s: the first timestamp is %.17g", what, q.timestamp);
    if (!std::isfinite(mag)) {
      MC_CHECK(!std::isfinite(q.timestamp), "%s: timestamp of sample %zu is %.17g after a time step that is not finite", what, i, q.timestamp);
    } else
    MC_CHECK(std::abs(q.timestamp - static_cast<double>(ts)) <= (1e-12 + 3e-16 * static_cast<double>(i)) * static_cast<double>(mag) + 1e-300,
             "%s: timestamp of sample %zu is %.17g, the preceding time steps sum to %.17Lg", what, i, q.timestamp, ts);
    double th = std::atan2(s.thetasin[i], s.thetacos[i]);
    MC_CHECK(std::abs(q.heading - th) <= 1e-13 || (std::abs(th) > 3.14159 && std::abs(std::abs(q.heading - th) - 2 * 3.14159265358979323846) < 1e-13),
             "%s: heading of sample %zu is %.17g, the angle of (%.17g, %.17g) is %.17g", what, i, q.heading, s.thetacos[i], s.thetasin[i], th);
    MC_CHECK(Same(q.x, s.x[i]) && Same(q.y, s.y[i]), "%s: position of sample %zu is (%.17g, %.17g), not (%.17g, %.17g)", what, i, q.x, q.y,
             s.x[i], s.y[i]);
    MC_CHECK(Same(q.velocityX, s.vx[i]) && Same(q.velocityY, s.vy[i]) && Same(q.angularVelocity, s.omega[i]),
             "%s: velocity of sample %zu is (%.17g, %.17g, %.17g), not (%.17g, %.17g, %.17g)", what, i, q.velocityX, q.velocityY,
             q.angularVelocity, s.vx[i], s.vy[i], s.omega[i]);
    MC_CHECK(Same(q.moduleForcesX, s.moduleFX[i]) && Same(q.moduleForcesY, s.moduleFY[i]), "%s: module forces of sample %zu differ", what, i);
  }
}

// One pass over: sample count x module count x time-step pattern x variation of one field of one sample.
static const double kVal[] = {0, -0.0, 1, -1, 3.5, -3.5, 1e-9, -1e-9, 1e-300, 5e-324, 1e12, -1e300, 0.1, 1.0 / 3, 123456.789,
                              std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
                              4503599627370497.0, -9007199254740993.0, 1.7e308};

static void Sizes() {
  size_t samples = static_cast<size_t>(mc::choose(mc::thorough() ? 41 : 17, "samples"));
  size_t modules = static_cast<size_t>(mc::choose(9, "modules"));
  int pat = mc::choose(10, "time steps");
  auto s = Make(samples, modules, static_cast<double>(samples));
  for (size_t i = 0; i < s.dt.size(); ++i) {
    auto k = static_cast<double>(i);
    double v[] = {s.dt[i], 0.1, 0.0, k + 1, i % 2 ? 1e-9 : 1e3, i == 0 ? 5.0 : 0.0, i + 1 == s.dt.size() ? 5.0 : 0.0, 1e-3 * k * k, 1.0 / (k + 1),
                  i * 3 < s.dt.size() ? 0.125 : i * 3 < 2 * s.dt.size() ? 0.3 : 0.05};
    s.dt[i] = v[pat];
  }
  // steps of every magnitude, and of either sign
  double scale = mc::pick({1.0, 1e-3, 1e-6, 1e-9, 1e-15, 1e-300, 1e6, -1.0}, "scale of the time steps");
  for (auto& d : s.dt) d *= scale;
  MC_LOG("%zu samples, %zu modules, time-step pattern %d x %g", samples, modules, pat, scale);
  mc::state(mc::Hash().add((uint64_t)samples).add((uint64_t)modules).add((uint64_t)pat).add(scale));
  auto before = s;
  HolonomicTrajectory t{s};
  Verify(before, t, "conversion");
  HolonomicTrajectory again{s};
  Verify(before, again, "second conversion of the same solution");
  const SwerveSolution& c = s;
  HolonomicTrajectory u{c};
  Verify(before, u, "conversion of a const solution");
  HolonomicTrajectory w{std::move(s)};
  Verify(before, w, "conversion of a temporary solution");
  Verify(before, t, "an earlier trajectory after later conversions");
}

// Every time-step sequence over a small alphabet.
static void Steps() {
  size_t samples = static_cast<size_t>(mc::choose(mc::thorough() ? 9 : 7, "samples"));
  auto s = Make(samples, 1, 2.0);
  static const double v[] = {0.0, 0.02, 0.125, 7.3, 3e-7, -0.01};
  mc::Hash h;
  for (auto& d : s.dt) {
    d = mc::pick(v);
    h.add(d);
  }
  mc::state(h.add((uint64_t)samples));
  MC_LOG("%zu samples, time steps ending with %g", samples, s.dt.empty() ? 0.0 : s.dt.back());
  Verify(s, HolonomicTrajectory{s}, "time steps");
}

static void Values() {
  size_t samples = 4, modules = 3;
  size_t at = static_cast<size_t>(mc::choose(4, "sample"));
  int field = mc::choose(8, "field");
  auto s = Make(samples, modules, 5.0);
  auto before = s;
  double v = mc::pick(kVal, "value");
  double* f[] = {&s.x[at], &s.y[at], &s.vx[at], &s.vy[at], &s.omega[at], nullptr, nullptr};
  if (field == 7) s.dt[at % 3] = v;
  else if (field < 5) *f[field] = v;
  else if (field == 5) s.moduleFX[at][static_cast<size_t>(mc::choose(3, "module"))] = v;
  else s.moduleFY[at][static_cast<size_t>(mc::choose(3, "module"))] = v;
  MC_LOG("sample %zu field %d = %g", at, field, v);
  mc::state(mc::Hash().add((uint64_t)at).add((uint64_t)field).add(v));
  before = s;
  Verify(before, HolonomicTrajectory{s}, "field values");
}

// Every combination of numbers of forces per sample and direction.
static void Ragged() {
  size_t samples = 1 + static_cast<size_t>(mc::choose(mc::thorough() ? 4 : 3, "samples, less one"));
  auto s = Make(samples, 0, 3.0);
  double n = 100;
  mc::Hash h;
  for (size_t i = 0; i < samples; ++i)
    for (auto* rows : {&s.moduleFX, &s.moduleFY}) {
      int forces = mc::choose(samples == 4 ? 3 : 4, "forces");
      h.add((uint64_t)forces);
      // (equal forces too)
      for (int j = 0; j < forces; ++j) (*rows)[i].push_back(forces == 2 ? 7.5 : n += 1.5);
    }
  mc::state(h.add((uint64_t)samples));
  MC_LOG("%zu samples", samples);
  Verify(s, HolonomicTrajectory{s}, "numbers of forces");
}

static void Headings() {
  size_t at = static_cast<size_t>(mc::choose(4, "sample"));
  int n = mc::thorough() ? 720 : 96;
  int k = mc::choose(n, "angle");
  double scale = mc::pick({1.0, 0.999, 1.001, 1 + 1e-9, 1 - 1e-9, 1e-3, 2.0, 1e3, 1e-200, 1e200});
  double off = mc::pick({0.0, 1e-12, -1e-9, 3e-7, -1e-6, 1e-5, -1e-4, 1e-3});
  if (off != 0 && k % (n / 8) != 0) throw mc::Prune{};
  auto s = Make(4, 2, 1.0);
  double th = 2 * 3.14159265358979323846 * k / n + off;
  s.thetacos[at] = scale * cos(th);
  s.thetasin[at] = scale * sin(th);
  if (off != 0) {
    if (k == 0) s.thetasin[at] = scale * off;
  } else if (k == 0) s.thetasin[at] = 0;
  if (off == 0 && 2 * k == n) s.thetasin[at] = scale * mc::pick({0.0, -0.0, 1e-17, -1e-17});
  if (off == 0 && (4 * k == n || 4 * k == 3 * n)) s.thetacos[at] = scale * mc::pick({0.0, -0.0, 1e-17, -1e-17});
  MC_LOG("sample %zu heading (%g, %g)", at, s.thetacos[at], s.thetasin[at]);
  mc::state(mc::Hash().add((uint64_t)at).add(s.thetacos[at]).add(s.thetasin[at]));
  Verify(s, HolonomicTrajectory{s}, "headings");
}

// Long trajectories: cumulative time stays exact.
static void Long() {
  size_t samples = static_cast<size_t>(mc::pick({100, 256, 257, 1000, 1025, 5000, 33000, 70000}));
  double h = mc::pick({0.02, 0.1, 1.0 / 3, 1e-4});
  size_t modules = static_cast<size_t>(mc::pick({4, 0, 17, 33}));
  if (samples > 5000 && modules > 4 && !mc::thorough()) throw mc::Prune{};
  bool uneven = mc::choose(2) == 1;
  auto s = Make(samples, modules, 1.0);
  for (size_t i = 0; i < s.dt.size(); ++i) s.dt[i] = h * (uneven ? static_cast<double>((i * i) % 13) : 1.0);
  MC_LOG("%zu samples of %g s, %zu modules", samples, h, modules);
  mc::state(mc::Hash().add((uint64_t)samples).add(h).add((uint64_t)modules).add((uint64_t)uneven));
  Verify(s, HolonomicTrajectory{s}, "long trajectory");
}

// Quantities that a trajectory does not carry, and time steps after the last
// sample, are of no consequence.
static void Unused() {
  size_t samples = static_cast<size_t>(mc::choose(6, "samples"));
  auto s = Make(samples, 2, 4.0);
  vector<double>* unused[] = {&s.ax, &s.ay, &s.alpha};
  mc::Hash h;
  for (int i = 0; i < 3; ++i) {
    int how = mc::choose(4, "as is / empty / shorter / longer");
    h.add((uint64_t)how);
    auto& v = *unused[i];
    if (how == 1) v.clear();
    if (how == 2 && !v.empty()) v.pop_back();
    if (how == 3) v.push_back(17.5);
  }
  int extra = mc::pick({0, 1, 2, 9});
  for (int i = 0; i < extra; ++i) s.dt.push_back(0.5 + i);
  mc::state(h.add((uint64_t)samples).add((uint64_t)extra));
  MC_LOG("%zu samples, %d extra time steps", samples, extra);
  Verify(s, HolonomicTrajectory{s}, "unused quantities");
}

static void FromSamples() {
  size_t n = static_cast<size_t>(mc::choose(7, "samples"));
  int how = mc::choose(4, "lvalue / rvalue / assignment / default");
  vector<HolonomicTrajectorySample> v;
  struct Ref {
    double f[7];
    vector<double> fx, fy;
  };
  vector<Ref> ref;
  double k = 0;
  mc::Hash h;
  for (size_t i = 0; i < n; ++i) {
    int kind = mc::choose(3, "sample without forces / with forces / default");
    h.add((uint64_t)kind);
    double f[7];
    for (double& e : f) e = k += 1.25;
    if (kind == 0) {
      v.emplace_back(f[0], f[1], f[2], f[3], f[4], f[5], f[6]);
      ref.push_back({{f[0], f[1], f[2], f[3], f[4], f[5], f[6]}, {}, {}});
    } else if (kind == 1) {
      vector<double> fx{k + 0.1, k + 0.2, k + 0.3}, fy{k - 0.1, k - 0.2};
      v.emplace_back(f[0], f[1], f[2], f[3], f[4], f[5], f[6], fx, fy);
      ref.push_back({{f[0], f[1], f[2], f[3], f[4], f[5], f[6]}, fx, fy});
    } else {
      v.emplace_back();
      ref.push_back({{0, 0, 0, 0, 0, 0, 0}, {}, {}});
    }
  }
  mc::state(h.add((uint64_t)n).add((uint64_t)how));
  HolonomicTrajectory t;
  MC_CHECK(t.samples.empty(), "a default trajectory has samples");
  vector<HolonomicTrajectorySample> copy = v;
  if (how == 0) t = HolonomicTrajectory{v};
  else if (how == 1) t = HolonomicTrajectory{std::move(copy)};
  else if (how == 2) {
    HolonomicTrajectory o{v};
    t = o;
    o.samples.clear();
  } else {
    HolonomicTrajectory o{v}, u{o};
    o.samples.clear();
    t = std::move(u);
  }
  auto check = [&](const vector<HolonomicTrajectorySample>& s, const char* what) {
    mc::op();
    MC_CHECK(s.size() == n, "%s: %zu samples, not %zu", what, s.size(), n);
    for (size_t i = 0; i < n; ++i) {
      double f[7] = {s[i].timestamp, s[i].x, s[i].y, s[i].heading, s[i].velocityX, s[i].velocityY, s[i].angularVelocity};
      static const char* name[] = {"timestamp", "x", "y", "heading", "velocityX", "velocityY", "angularVelocity"};
      for (int j = 0; j < 7; ++j)
        MC_CHECK(f[j] == ref[i].f[j], "%s: %s of sample %zu is %g, not %g", what, name[j], i, f[j], ref[i].f[j]);
      MC_CHECK(Same(s[i].moduleForcesX, ref[i].fx) && Same(s[i].moduleForcesY, ref[i].fy), "%s: forces of sample %zu differ", what, i);
    }
  };
  check(t.samples, "trajectory");
  check(v, "the samples it was made from");
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"sizes", Sizes, 2}, {"time-steps", Steps, 2}, {"values", Values, 2}, {"ragged", Ragged, 3}, {"headings", Headings, 2}, {"long", Long, 2}, {"unused", Unused, 3},
                               {"from-samples", FromSamples, 3}});
}
