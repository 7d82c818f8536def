// Shared configurations for the checks of the optimisation problem.
#pragma once

#include <memory>
#include <numbers>
#include <optional>

#include "mc/mc.hpp"
#include "mc/problem.hpp"

namespace tp {

using trajopt::SwerveDrivetrain;
using trajopt::SwerveModule;
using trajopt::SwervePathBuilder;
using trajopt::SwerveTrajectoryGenerator;
using trajopt::Translation2d;

/// Drivetrains with limits no trajectory of the lattices reaches: wheels at up to
/// 40 m/s or so, time steps up to 0.05 s, enormous forces. Modules differ from
/// each other in every parameter.
inline SwerveDrivetrain Drive(int kind) {
  auto mod = [&](double x, double y, double r, double v) {
    return SwerveModule{{x, y}, r, v / r, 1e6 * (1 + r)};
  };
  switch (kind) {
    case 0:  // plain square robot
      return {45.1, 6.3, {mod(1.51, 1.51, 0.04, 40), mod(1.51, -1.51, 0.05, 41), mod(-1.51, 1.51, 0.06, 42),
                          mod(-1.51, -1.51, 0.07, 43)}};
    case 1:  // two modules, asymmetric
      return {10.3, 3.1, {mod(1.77, 0.73, 0.05, 44), mod(-0.5, -1.5, 0.04, 45)}};
    case 2:  // three modules, one at the centre
      return {20.0, 2.0, {mod(0.0, 0.0, 0.05, 40), mod(2.5, -2.25, 0.04, 42), mod(-2.25, 2.0, 0.1, 43)}};
    case 4:  // modules on the axes, and two at one place
      return {15.0, 2.5, {mod(2.0, 0.0, 0.05, 44), mod(0.0, 2.25, 0.04, 45), mod(-2.0, 0.0, 0.06, 46), mod(-2.0, 0.0, 0.03, 40)}};
    case 5:  // six modules
      return {60.0, 9.0, {mod(1.5, 1.5, 0.04, 40), mod(1.5, -1.5, 0.05, 41), mod(-1.5, 1.5, 0.06, 42), mod(-1.5, -1.5, 0.07, 43),
                          mod(-3.5, -1.0, 0.08, 44), mod(3.25, 3.5, 0.05, 45)}};
    case 6:  // all of its mass at one point
      return {25.0, 0.0, {mod(1.5, 1.5, 0.05, 44), mod(-1.5, -1.25, 0.05, 44)}};
    case 7:  // a toy
      return {0.02, 0.003, {mod(2.0, 1.5, 0.05, 44), mod(-1.5, -2.25, 0.05, 44), mod(-2.0, 1.5, 0.05, 44)}};
    case 8:  // a locomotive, with equal modules
      return {4e4, 6e4, {mod(2.0, 1.5, 0.05, 44), mod(2.0, -1.5, 0.05, 44), mod(-2.0, 1.5, 0.05, 44), mod(-2.0, -1.5, 0.05, 44)}};
    case 9:  // no inertia to speak of
      return {10.0, 1e-3, {mod(1.75, 0.75, 0.05, 44), mod(-0.5, -1.5, 0.04, 45)}};
    case 10:
    case 11: {  // a dozen modules, or forty
      SwerveDrivetrain d{75.7, 20.9, {}};
      int n = kind == 10 ? 12 : 40;
      for (int i = 0; i < n; ++i) d.modules.push_back(mod((1.5 + 0.3 * (i % 5)) * cos(2.4 * i + 0.3), (1.5 + 0.3 * (i % 5)) * sin(2.4 * i + 0.3), 0.05, 44));
      // (none so close to another along an axis that time steps become tiny)
      for (int i = 0; i < n; ++i) d.modules[i].translation = {std::round(d.modules[i].translation.X() * 1.3) / 1.3, std::round(d.modules[i].translation.Y() * 1.3) / 1.3};
      return d;
    }
    default:  // one module off-centre
      return {5.0, 1.5, {mod(0.75, -0.5, 0.05, 60)}};
  }
}
/// True if every limit (wheel speed, wheel force, time step) holds with room.
inline bool WithinLimits(const Traj& t, const SwerveDrivetrain& d) {
  double h = MaxTimeStep(d);
  for (double dt : t.dt)
    if (dt < 0 || dt > h * 0.999) return false;
  return LimitsExcess(t, d) < -1e-3;
}

inline std::string Show(const std::vector<size_t>& N) {
  std::string s = "{";
  for (auto n : N) s += (s.size() > 1 ? "," : "") + std::to_string(n);
  return s + "}";
}

struct Built {
  Problem p;
  FieldMap m;
};

/// What else the path, the builder or the generator is given: none of it changes
/// which of a check's trajectories are admitted.
inline int company = 0;
constexpr int kCompanies = 16;
inline const char* CompanyName(int k) {
  static const char* const names[kCompanies] = {"nothing else", "guesses and inner points", "bumpers", "bumpers and far obstacles", "loose constraints before",
      "loose constraints after", "callbacks and a handle", "a second generation", "a copied builder, set twice", "diagnostics", "a moved generator",
      "a generation that failed before", "a generation cancelled before", "constraints on waypoints only", "constraints on segments only", "everything"};
  return names[k];
}
/// Runs `body` once per kind of company.
template <typename F>
void InCompany(F body) {
  struct Guard {
    ~Guard() { company = 0; }
  } guard;
  company = 1 + mc::choose(kCompanies - 1, "company");
  MC_LOG("in company of %s", CompanyName(company));
  body();
}

namespace detail {
inline void LooseConstraints(SwervePathBuilder& b, size_t wpts, bool onWpts, bool onSgmts) {
  const std::vector<trajopt::Constraint> all{
      trajopt::LinearVelocityMaxMagnitudeConstraint{1e7}, trajopt::AngularVelocityMaxMagnitudeConstraint{1e7},
      trajopt::LinearAccelerationMaxMagnitudeConstraint{1e9}, trajopt::PointPointConstraint{{0.5, 0.25}, {1e7, -2e7}, 1.0},
      trajopt::LinePointConstraint{{0.5, 0.25}, {-0.5, 0.25}, {-1e7, 2e7}, 1.0}, trajopt::PointLineConstraint{{0.5, 0.25}, {1e7, 1e7}, {3e7, 1e7}, 1.0}};
  for (auto& c : all) {
    for (size_t i = 0; i < wpts && onWpts; ++i) b.WptConstraint(i, c);
    for (size_t i = 1; i < wpts && onSgmts; ++i) b.SgmtConstraint(i - 1, i, c);
    if (wpts > 1 && onSgmts) b.SgmtConstraint(0, wpts - 1, c);
  }
}
}  // namespace detail

/// Builds the problem for a path prepared by `prepare`.
template <typename F>
Built Build(const std::vector<size_t>& N, const SwerveDrivetrain& d, F prepare) {
  const int k = company;
  const bool every = k == 15;
  SwervePathBuilder b;
  size_t wpts = N.size() + 1;
  if (k == 8 || every) {
    b.SetDrivetrain({1.0, 9.0, {SwerveModule{{1, 2}, 1, 1, 1}, SwerveModule{{3, 2.001}, 1, 1e3, 1}, SwerveModule{{1, 0}, 2, 1, 7}}});
    b.ControlIntervalCounts(std::vector<size_t>(N.size(), 9));
  } else {
    b.SetDrivetrain(d);
  }
  b.WptInitialGuessPoint(N.size(), {0.0, 0.0, {0.0}});  // creates all waypoints
  auto guesses = [&] {
    for (size_t i = 0; i < wpts; ++i) {
      double f = static_cast<double>(i);
      b.WptInitialGuessPoint(i, {3.5 - 2 * f, 1.25 * f * f, {0.9 * f - 2}});
      if (i > 0 && N[i - 1] > 1) b.SgmtInitialGuessPoints(i - 1, {{-4.0, f, {1.0 + f}}});
    }
  };
  if (k == 1 || every) guesses();
  if (k == 4 || every) detail::LooseConstraints(b, wpts, true, true);
  prepare(b);
  if (k == 1) guesses();
  if (k == 5) detail::LooseConstraints(b, wpts, true, true);
  if (k == 13) detail::LooseConstraints(b, wpts, true, false);
  if (k == 14) detail::LooseConstraints(b, wpts, false, true);
  if (k == 2 || k == 3 || every) {
    b.AddBumpers({0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
    b.AddBumpers({0.2, {{0.7, 0.0}}});
  }
  if (k == 3 || every) {
    trajopt::Obstacle far[] = {{3.0, {{1e7, 1e7}}}, {1.0, {{-2e7, 1e7}, {-2e7, 3e7}, {-3e7, 2e7}}}};
    for (auto& o : far) {
      for (size_t i = 0; i < wpts; ++i) b.WptObstacle(i, o);
      if (wpts > 1) b.SgmtObstacle(0, wpts - 1, o);
    }
  }
  if (k == 6 || every)
    for (int i = 0; i < 3; ++i) b.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) {});
  auto counts = N;
  b.ControlIntervalCounts(std::move(counts));
  Built r;
  auto capture = [&](SwerveTrajectoryGenerator& g) {
    if (k == 7 || k == 11 || k == 12 || every) {
      // an earlier generation
      sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& prob, const sleipnir::SolverConfig&) {
        for (auto& v : prob.EnvDecisionVariables()) v.SetValue(0.25);
        sleipnir::SolverStatus s{};
        if (k == 11) s.exitCondition = static_cast<sleipnir::SolverExitCondition>(-2);
        if (k == 12) s.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
        return s;
      };
      std::optional<trajopt::SwerveSolution> sol;
      GenerateText(g, &sol);
      sleipnir::env::Hook() = nullptr;
    }
    r.p = Capture(g, r.m, N, d.modules.size(), k == 9 || every);
  };
  if (k == 8 || every) {
    SwervePathBuilder copy{b};
    copy.SetDrivetrain(d);
    SwervePathBuilder moved{std::move(copy)};
    SwerveTrajectoryGenerator g{moved, every ? -3 : 0};
    capture(g);
  } else if (k == 10) {
    auto first = std::make_unique<SwerveTrajectoryGenerator>(b, 4);
    SwerveTrajectoryGenerator g{std::move(*first)};
    first.reset();
    capture(g);
  } else if (k == 6) {
    SwerveTrajectoryGenerator g{b, 7};
    capture(g);
  } else {
    SwerveTrajectoryGenerator g{b};
    capture(g);
  }
  return r;
}

}  // namespace tp
