// Helpers of the demonstrations: plays the solver (Sleipnir itself is not
// available) and asks whether the problem TrajoptLib builds admits a solution.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

#include <sleipnir/optimization/OptimizationProblem.hpp>

#include "trajopt/SwerveTrajectoryGenerator.hpp"
#include "trajopt/path/SwervePathBuilder.hpp"
#include "trajopt/solution/SwerveSolution.hpp"

namespace demo {

inline int failures = 0;
inline void Check(bool ok, const char* what) {
  if (!ok) {
    std::printf("FAILED: %s\n", what);
    ++failures;
  }
}
inline bool Near(double a, double b) { return std::abs(a - b) < 1e-9; }

using Hook = sleipnir::env::SolveHook;
inline auto Solve(trajopt::SwerveTrajectoryGenerator& g, Hook hook) {
  sleipnir::env::Hook() = std::move(hook);
  return g.Generate();
}

/// Visits every scalar of a solution, in a fixed order.
template <typename S, typename F>
void Visit(S& s, F f) {
  for (auto* v : {&s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay,
                  &s.alpha, &s.dt})
    for (auto& d : *v) f(d);
  for (auto* m : {&s.moduleFX, &s.moduleFY})
    for (auto& row : *m)
      for (auto& d : row) f(d);
}

/// Whether the generator's problem admits the solution. The solver variable of
/// each entry of a solution is found by solving with distinct values.
inline bool Admits(trajopt::SwerveTrajectoryGenerator& g, trajopt::SwerveSolution s) {
  auto labels = Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    double n = 1000;
    for (auto& v : p.EnvDecisionVariables()) v.SetValue(n++);
    return sleipnir::SolverStatus{};
  });
  std::vector<size_t> index;
  Visit(*labels, [&](double d) { index.push_back(static_cast<size_t>(d - 1000)); });
  bool ok = true;
  Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    size_t i = 0;
    Visit(s, [&](double d) { p.EnvDecisionVariables().at(index.at(i++)).SetValue(d); });
    for (auto& c : p.EnvEquality())
      if (!(std::abs(c.Value()) < 1e-9)) ok = false;
    for (auto& c : p.EnvInequality())
      if (!(c.Value() > -1e-9)) ok = false;
    return sleipnir::SolverStatus{};
  });
  return ok;
}

inline trajopt::SwerveDrivetrain Square(double torque = 1e4, double speed = 1e3) {
  trajopt::SwerveDrivetrain d;
  d.mass = 4;
  d.moi = 2;
  for (double x : {1.0, -1.0})
    for (double y : {1.0, -1.0})
      d.modules.push_back(trajopt::SwerveModule{{x, y}, 0.5, speed, torque});
  return d;
}

/// Straight motion along x from (x0, y0) with the given velocity at each sample.
inline trajopt::SwerveSolution Straight(double x0, double y0, const std::vector<double>& v,
                                        const std::vector<double>& dt, size_t modules = 4,
                                        double mass = 4) {
  trajopt::SwerveSolution s;
  size_t n = v.size();
  double x = x0;
  for (size_t i = 0; i < n; ++i) {
    double a = 0;
    if (i > 0) {
      x += v[i] * dt[i - 1];
      a = (v[i] - v[i - 1]) / dt[i - 1];
      s.dt.push_back(dt[i - 1]);
    }
    s.x.push_back(x);
    s.y.push_back(y0);
    s.thetacos.push_back(1);
    s.thetasin.push_back(0);
    s.vx.push_back(v[i]);
    s.vy.push_back(0);
    s.omega.push_back(0);
    s.ax.push_back(a);
    s.ay.push_back(0);
    s.alpha.push_back(0);
    s.moduleFX.emplace_back(modules, mass * a / modules);
    s.moduleFY.emplace_back(modules, 0.0);
  }
  return s;
}

}  // namespace demo
