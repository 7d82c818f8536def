"""Planted bugs: property, edits (file, old, new), what it needs and breaks, demonstration (C++)."""
GEN = "src/SwerveTrajectoryGenerator.cpp"
BLD = "src/path/SwervePathBuilder.cpp"
BLH = "include/trajopt/path/SwervePathBuilder.hpp"
UTL = "include/trajopt/util/TrajoptUtil.hpp"
EXP = "include/trajopt/util/expected"
TRJ = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
CON = "include/trajopt/constraint/"
BUGS = {}


def bug(name, prop, edits, needs, breaks, demo, kind="sleipnir", **kw):
    BUGS[name] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind, **kw)


bug("C01-new-segment-count", "C01",
    [(BLD, "        controlIntervalCounts.push_back(40);",
      "        controlIntervalCounts.push_back(controlIntervalCounts.empty() ? 40 : controlIntervalCounts.back());")],
    "interval counts configured, then a waypoint added beyond the configured segments",
    "a segment nobody configured takes over the count of the segment before instead of 40",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  b.ControlIntervalCounts({8});
  b.PoseWpt(2, 2, 0, 0);
  Check(b.GetControlIntervalCounts() == std::vector<size_t>{8, 40}, "a new segment has 40 intervals");
  return failures;
}''')

bug("C01-shared-waypoint-dedup", "C01",
    [(BLH, "    path.waypoints.at(fromIndex).waypointConstraints.push_back(constraint);\n    for",
      "    // Consecutive segments share a waypoint; don't constrain it twice\n"
      "    auto& shared = path.waypoints.at(fromIndex);\n"
      "    if (shared.segmentConstraints.empty() ||\n"
      "        shared.segmentConstraints.back().index() != constraint.index()) {\n"
      "      shared.waypointConstraints.push_back(constraint);\n"
      "    }\n    for")],
    "two consecutive segments with constraints of the same type and different limits, the tighter one second",
    "the waypoint shared by the two segments is not bound by the second segment's constraint",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(2, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1, 1});
  b.SgmtConstraint(0, 1, trajopt::LinearVelocityMaxMagnitudeConstraint{3.0});
  b.SgmtConstraint(1, 2, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0});
  trajopt::SwerveTrajectoryGenerator g{b};
  Check(Admits(g, Straight(0, 0, {0, 1, 1}, {1e-3, 1e-3})), "slow motion is admitted");
  Check(!Admits(g, Straight(0, 0, {0, 2, 1}, {1e-3, 1e-3})), "the shared waypoint obeys both limits");
  return failures;
}''')

bug("C02-segment-starts-late", "C02",
    [(GEN, "      size_t startIndex = GetIndex(N, sgmtIndex + 1, 0);",
      "      // the sample at the waypoint is covered by its waypoint constraints\n"
      "      size_t startIndex = GetIndex(N, sgmtIndex + 1, sgmtIndex > 0 ? 1 : 0);")],
    "a constraint on a segment other than the first that has several intervals",
    "the first sample after the segment's starting waypoint is not constrained",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(2, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2, 3});
  b.SgmtConstraint(1, 2, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0});
  trajopt::SwerveTrajectoryGenerator g{b};
  Check(Admits(g, Straight(0, 0, {0, 2, 1, 1, 1, 0}, {1e-3, 1e-3, 1e-3, 1e-3, 1e-3})), "fast motion is admitted before the segment");
  Check(!Admits(g, Straight(0, 0, {0, 2, 1, 2, 1, 0}, {1e-3, 1e-3, 1e-3, 1e-3, 1e-3})), "the segment's first sample is limited");
  return failures;
}''')

bug("C03-unbounded-line", "C03",
    [(CON + "detail/LinePointDistance.hpp", "  auto tBounded = max(min(t, 1), 0);  // NOLINT",
      "  auto tBounded = max(min(t, l.SquaredNorm()), 0);  // NOLINT")],
    "an edge longer than one unit and a robot corner beyond its end",
    "the distance to an edge is measured to its extension beyond the end",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 3, 0, 0);
  b.WptInitialGuessPoint(1, {3.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  b.WptConstraint(0, trajopt::PointLineConstraint{{0.0, 0.0}, {0.0, 0.0}, {2.0, 0.0}, 0.5});
  trajopt::SwerveTrajectoryGenerator g{b};
  Check(Admits(g, Straight(3, 0, {0, 0}, {1e-3})), "a pose one unit beyond the end of the edge is admitted");
  return failures;
}''', inc=["LinePointConstraint", "PointLineConstraint"])

bug("C04-triangular-bumpers", "C04",
    [(BLD, "      if (bumperCornerCount >= 3) {\n        SgmtConstraint(", "      if (bumperCornerCount > 3) {\n        SgmtConstraint(")],
    "an obstacle on a span of waypoints and bumpers with exactly three corners",
    "the closing edge of triangular bumpers is not kept clear of the obstacle",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.AddBumpers({.safetyDistance = 0.1, .points = {{-4.0, 0.0}, {0.0, 3.0}, {4.0, 0.0}}});
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  b.SgmtObstacle(0, 1, {.safetyDistance = 0.1, .points = {{0.0, -0.05}}});
  trajopt::SwerveTrajectoryGenerator g{b};
  Check(Admits(g, Straight(0, 1, {0, 0}, {1e-3})), "a clear pose is admitted");
  Check(!Admits(g, Straight(0, 0, {0, 0}, {1e-3})), "the closing edge keeps its distance");
  return failures;
}''')

bug("C05-boundary-step", "C05",
    [(GEN, "      problem.SubjectTo(v_n_1 + a_n * dt_sgmt == v_n);",
      "      // the acceleration at a waypoint lasts for the time step leading to it\n"
      "      auto dt_a = sampIndex == 0 && wptIndex > 1 ? dt.at(wptIndex - 2) : dt_sgmt;\n"
      "      problem.SubjectTo(v_n_1 + a_n * dt_a == v_n);")],
    "two segments with different time steps and a change of velocity right after the waypoint between them",
    "the velocity step across a segment boundary uses the previous segment's time step",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square(1e9));
  b.WptInitialGuessPoint(2, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2, 2});
  trajopt::SwerveTrajectoryGenerator g{b};
  Check(Admits(g, Straight(0, 0, {0, 1, 2, 3, 0}, {1e-3, 1e-3, 1e-3, 1e-3})), "equal time steps");
  Check(Admits(g, Straight(0, 0, {0, 1, 2, 3, 0}, {1e-3, 1e-3, 2e-3, 2e-3})), "unequal time steps");
  return failures;
}''')

bug("C06-first-module-force", "C06",
    [(GEN, "      double maxForce = wheelMaxTorque / wheelRadius;",
      "      double maxForce = wheelMaxTorque / path.drivetrain.modules.front().wheelRadius;")],
    "modules with different wheel radii",
    "the force limit of every module is computed with the first module's wheel radius",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  auto d = Square(8.0);
  d.modules.at(3).wheelRadius = 1.0;
  b.SetDrivetrain(d);
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  trajopt::SwerveTrajectoryGenerator g{b};
  Check(Admits(g, Straight(0, 0, {0, 7e-4}, {1e-4})), "a force of 7 on each module is admitted");
  Check(!Admits(g, Straight(0, 0, {0, 10e-4}, {1e-4})), "a force of 10 exceeds the limit of the module with the bigger wheel");
  return failures;
}''')

bug("C07-narrow-interval-count", "C07",
    [(GEN, "    auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);",
      "    auto T_sgmt = dt_sgmt * static_cast<int8_t>(N_sgmt);")],
    "a segment with at least 128 control intervals",
    "the time of a long segment counts wrongly (even negatively) in the quantity minimised",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({200});
  trajopt::SwerveTrajectoryGenerator g{b};
  double cost = 0, total = 0;
  auto soln = Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    cost = p.EnvCost()->Value();
    return sleipnir::SolverStatus{};
  });
  for (double dt : soln->dt) total += dt;
  Check(Near(cost, total), "the cost is the total time");
  return failures;
}''')

bug("C08-guess-replaces-points", "C08",
    [(BLD, "  initialGuessPoints.at(wptIndex).back() = poseGuess;", "  initialGuessPoints.at(wptIndex) = {poseGuess};")],
    "the intermediate guess points of a segment given before the guess of the waypoint it leads to",
    "a waypoint's guess discards the intermediate guess points given earlier",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.WptInitialGuessPoint(0, {0.0, 0.0, {0.0}});
  b.SgmtInitialGuessPoints(0, {{1.0, 5.0, {0.0}}});
  b.WptInitialGuessPoint(1, {2.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  auto s = b.CalculateInitialGuess();
  Check(s.y.size() == 3 && Near(s.y.at(1), 5), "the guess visits the intermediate point");
  return failures;
}''')

bug("C09-long-way-round", "C09",
    [(GEN, "        Rotation2d{thetacos, thetasin}\n            .RotateBy(-Rotation2d{last_thetacos, last_thetasin})\n            .Radians() /",
      "        (Rotation2d{thetacos, thetasin}.Radians() -\n         Rotation2d{last_thetacos, last_thetasin}.Radians()) /")],
    "an initial guess whose heading passes through half a turn",
    "the guessed angular velocity (and acceleration) goes the long way round at one sample",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(0, {0.0, 0.0, {3.0}});
  b.WptInitialGuessPoint(1, {0.0, 0.0, {-3.0}});
  b.ControlIntervalCounts({4});
  trajopt::SwerveTrajectoryGenerator g{b};
  auto s = Solve(g, [](auto&, auto&) { return sleipnir::SolverStatus{}; });
  for (size_t i = 1; i < s->omega.size(); ++i)
    Check(s->omega[i] > 0 && Near(s->omega[i], s->omega[1]), "the angular velocity is even and positive");
  return failures;
}''')

bug("C10-degenerate-segment", "C10",
    [(GEN, "    double dt_val = dt_sgmt.Value();", "    double dt_val = dt_sgmt.Value();\n    if (dt_val <= 0.0) {\n      continue;\n    }")],
    "a final iterate in which one segment takes no time",
    "the time steps of a segment that takes no time are dropped, so the following ones belong to other samples",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(2, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2, 3});
  trajopt::SwerveTrajectoryGenerator g{b};
  auto s = Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    for (auto& v : p.EnvDecisionVariables()) v.SetValue(0.0);
    return sleipnir::SolverStatus{};
  });
  Check(s.has_value() && s->x.size() == 6 && s->dt == std::vector<double>(5, 0.0), "one time step per interval");
  return failures;
}''')

bug("C11-timeout-succeeds", "C11",
    [(GEN, "  if (static_cast<int>(status.exitCondition) < 0 ||",
      "  // a solver that ran out of time still leaves a usable trajectory\n"
      "  if ((static_cast<int>(status.exitCondition) < 0 &&\n"
      "       status.exitCondition != sleipnir::SolverExitCondition::kTimeout) ||")],
    "a solver run that ends because of its time limit",
    "an unfinished trajectory is returned as a success",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  using enum sleipnir::SolverExitCondition;
  for (auto e : {kTooFewDOFs, kLocallyInfeasible, kMaxIterationsExceeded, kTimeout}) {
    auto s = Solve(g, [&](auto&, auto&) {
      sleipnir::SolverStatus status;
      status.exitCondition = e;
      return status;
    });
    Check(!s.has_value() && s.error() == sleipnir::ToMessage(e), "a failure of the solver is an error");
  }
  return failures;
}''')

bug("C12-frame-catch-up", "C12",
    [(GEN, "    lastFrameTime = now;",
      "    // keep an even frame rate\n    lastFrameTime += std::chrono::duration_cast<std::chrono::steady_clock::duration>(timePerFrame);")],
    "one slow solver iteration followed by fast ones",
    "after a slow iteration a burst of reports closer than 1/60 s follows",
    r'''
#include <thread>
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  std::vector<std::chrono::steady_clock::time_point> reports;
  b.AddIntermediateCallback([&](trajopt::SwerveSolution&, int64_t) { reports.push_back(std::chrono::steady_clock::now()); });
  trajopt::SwerveTrajectoryGenerator g{b};
  Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    p.EnvIterate(0);
    std::this_thread::sleep_for(std::chrono::milliseconds(200));
    for (int i = 1; i < 8; ++i) p.EnvIterate(i);
    return sleipnir::SolverStatus{};
  });
  Check(!reports.empty(), "something is reported");
  for (size_t i = 1; i < reports.size(); ++i)
    Check(std::chrono::duration<double>(reports[i] - reports[i - 1]).count() >= 0.9 / 60, "reports are at least 1/60 s apart");
  return failures;
}''')

bug("C13-per-thread-flag", "C13",
    [("src/util/Cancellation.cpp", "  static std::atomic<int> flag{0};", "  static thread_local std::atomic<int> flag{0};")],
    "a cancellation requested from another thread than the generation's",
    "the request is not seen by the generation",
    r'''
#include <cstdio>
#include <thread>
#include "trajopt/util/Cancellation.hpp"
int main() {
  trajopt::GetCancellationFlag() = 0;
  std::thread{[] { trajopt::GetCancellationFlag() = 1; }}.join();
  if (trajopt::GetCancellationFlag() != 1) {
    std::puts("FAILED: a request of another thread is seen");
    return 1;
  }
  return 0;
}''', kind="plain", srcs=["src/util/Cancellation.cpp"])

bug("C14-shared-scratch", "C14",
    [(GEN, "  std::vector<double> valueRowVector;\n  valueRowVector.reserve(rowVector.size());",
      "  // reuse the capacity from one progress report to the next\n"
      "  static std::vector<double> valueRowVector;\n  valueRowVector.clear();\n  valueRowVector.reserve(rowVector.size());")],
    "two generations running on different threads",
    "solutions are collected in a shared scratch vector, so concurrent generations mix up or corrupt their values",
    r'''
#include <thread>
int main() {
  auto run = [](double value, bool* ok) {
    for (int round = 0; round < 200; ++round) {
      trajopt::SwervePathBuilder b;
      b.SetDrivetrain(Square());
      b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
      b.ControlIntervalCounts({20});
      trajopt::SwerveTrajectoryGenerator g{b, static_cast<int64_t>(value)};
      for (int i = 0; i < 50; ++i) {
        auto s = g.Generate();
        Visit(*s, [&](double d) { *ok &= d == value; });
        *ok &= s->x.size() == 21 && s->alpha.size() == 21 && s->moduleFX.size() == 21;
      }
    }
  };
  // the solver finds a value that depends on the problem alone
  static thread_local double own = 0;
  sleipnir::env::Hook() = [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    for (auto& v : p.EnvDecisionVariables()) v.SetValue(own);
    return sleipnir::SolverStatus{};
  };
  bool ok[4] = {true, true, true, true};
  std::vector<std::thread> threads;
  for (int i = 0; i < 4; ++i) threads.emplace_back([&, i] { own = i; run(i, &ok[i]); });
  for (auto& t : threads) t.join();
  for (bool o : ok) Check(o, "a generation returns its own values");
  return failures;
}''')

bug("C15-uniform-timestamps", "C15",
    [(TRJ, "        ts += solution.dt[samp - 1];", "        ts = samp * solution.dt[samp - 1];")],
    "a solution whose segments have different time steps",
    "timestamps are not the sum of the preceding time steps",
    r'''
#include <cstdio>
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
int main() {
  trajopt::SwerveSolution s;
  s.dt = {0.5, 0.25};
  s.x = s.y = s.thetacos = s.thetasin = s.vx = s.vy = s.omega = s.ax = s.ay = s.alpha = {1, 1, 1};
  s.moduleFX = s.moduleFY = {{1}, {1}, {1}};
  trajopt::HolonomicTrajectory t{s};
  if (t.samples.at(0).timestamp != 0 || t.samples.at(1).timestamp != 0.5 || t.samples.at(2).timestamp != 0.75) {
    std::puts("FAILED: timestamps add up");
    return 1;
  }
  return 0;
}''', kind="plain")

bug("C16-index-memo", "C16",
    [(UTL, "  size_t index = 0;\n  if (wptIndex > 0) {\n    ++index;\n  }\n  for (size_t _wptIndex = 1; _wptIndex < wptIndex; ++_wptIndex) {\n    index += N.at(_wptIndex - 1);\n  }\n  index += sampIndex;\n  return index;",
      "  // Samples are visited in order, so continue from the last waypoint\n"
      "  static thread_local const size_t* lastN = nullptr;\n  static thread_local size_t lastWpt = 0;\n  static thread_local size_t lastIndex = 0;\n"
      "  if (lastN != N.data() || wptIndex < lastWpt || wptIndex == 0) {\n    lastN = N.data();\n    lastWpt = 0;\n    lastIndex = 0;\n  }\n"
      "  for (; lastWpt < wptIndex; ++lastWpt) {\n    lastIndex += lastWpt == 0 ? 1 : N.at(lastWpt - 1);\n  }\n  return lastIndex + sampIndex;")],
    "indexing with a list of counts, changing the list in place (or another list at the same address), and indexing again",
    "the index is that of the old list of counts",
    r'''
#include <cstdio>
#include <cstddef>
#include "trajopt/util/TrajoptUtil.hpp"
int main() {
  std::vector<size_t> n{2, 3};
  bool ok = trajopt::GetIndex(n, 1, 0) == 1 && trajopt::GetIndex(n, 2, 0) == 3;
  n = {5, 3};
  ok &= trajopt::GetIndex(n, 2, 0) == 6 && trajopt::GetIndex(n, 3, 0) == 9;
  if (!ok) std::puts("FAILED: indices follow the counts given");
  return !ok;
}''', kind="plain")

bug("C17-one-turn", "C17",
    [(UTL, "  const double numMax = std::trunc((diff - minimumInput) / modulus);\n  diff -= numMax * modulus;",
      "  if (diff >= -minimumInput) {\n    diff -= modulus;\n  }")],
    "a target angle more than one and a half turns above the start",
    "the interpolation travels more than half a turn",
    r'''
#include <cstdio>
#include <cstddef>
#include "trajopt/util/TrajoptUtil.hpp"
int main() {
  bool ok = true;
  for (double start : {0.0, 1.0})
    for (int turns = -3; turns <= 3; ++turns) {
      double end = start + 0.5 + turns * 2 * std::numbers::pi;
      auto v = trajopt::AngleLinspace(start, end, 5);
      ok &= v.size() == 5 && std::abs(v.back() - (start + 0.5)) < 1e-9;
    }
  if (!ok) std::puts("FAILED: angles go the short way round");
  return !ok;
}''', kind="plain")

bug("C18-one-sided-norm", "C18",
    [("include/trajopt/geometry/Rotation2.hpp",
      "  if constexpr (std::same_as<U, sleipnir::Variable>) {\n    constraints.emplace_back(rhs", "  else if constexpr (std::same_as<U, sleipnir::Variable>) {\n    constraints.emplace_back(rhs")],
    "an equality between two rotations of solver variables",
    "the equality holds for any heading when the right-hand side is no rotation at all (zero vector)",
    r'''
#include "trajopt/geometry/Rotation2.hpp"
int main() {
  auto holds = [](double c, double s) {
    trajopt::Rotation2v a{sleipnir::Variable{1.0}, sleipnir::Variable{0.0}};
    trajopt::Rotation2v b{sleipnir::Variable{c}, sleipnir::Variable{s}};
    auto e = a == b;
    for (auto& c : e.constraints)
      if (std::abs(c.Value()) > 1e-9) return false;
    return true;
  };
  Check(holds(1, 0), "equal rotations are equal");
  Check(!holds(0, 1), "a quarter turn is not equal");
  Check(!holds(0, 0), "the zero vector is no rotation");
  return failures;
}''')

bug("C19-void-error-kept", "C19",
    [(EXP, "      } else {\n        geterr() = std::forward<Rhs>(rhs).geterr();\n      }\n    } else {\n      if (!rhs.m_has_val) {\n        new", "      }\n    } else {\n      if (!rhs.m_has_val) {\n        new")],
    "assigning a failed void result to a void result that already holds another error",
    "the assignment is ignored: the old error stays",
    r'''
#include <cstdio>
#include <string>
#include "trajopt/util/expected"
int main() {
  using R = trajopt::expected<void, std::string>;
  R a = trajopt::unexpected<std::string>("first"), b = trajopt::unexpected<std::string>("second");
  a = b;
  bool ok = !a && a.error() == "second" && b.error() == "second";
  a = R{};
  ok &= a.has_value();
  if (!ok) std::puts("FAILED: an assigned error is held");
  return !ok;
}''', kind="plain")

bug("C20-early-state", "C20",
    [(EXP, "      try {\n        ::new (valptr()) T(std::forward<U>(v));\n        this->m_has_val = true;\n      } catch",
      "      this->m_has_val = true;\n      try {\n        ::new (valptr()) T(std::forward<U>(v));\n      } catch")],
    "a value whose construction throws, assigned to a result that holds an error",
    "after the exception the result claims to hold a value although it holds its former error",
    r'''
#include <cstdio>
#include <string>
#include "trajopt/util/expected"
struct Thrower {
  Thrower() = default;
  Thrower(int i) { if (i < 0) throw i; }  // NOLINT
  Thrower& operator=(int) { return *this; }
};
int main() {
  trajopt::expected<Thrower, std::string> a = trajopt::unexpected<std::string>("former");
  bool thrown = false;
  try {
    a = -1;
  } catch (int) {
    thrown = true;
  }
  bool ok = thrown && !a.has_value();
  if (!ok) {
    std::puts("FAILED: the former error is kept");
    std::_Exit(1);
  }
  return a.error() != "former";
}''', kind="plain")

bug("C20-error-assign-leak", "C20",
    [(EXP, "    if (!has_value()) {\n      err() = rhs;\n    } else {\n      this->destroy_val();\n      ::new (errptr()) unexpected<E>(rhs);",
      "    if (!has_value()) {\n      err() = rhs;\n    } else {\n      ::new (errptr()) unexpected<E>(rhs);")],
    "assigning an lvalue error to a result that holds a value with resources",
    "the value is never destroyed",
    r"""
#include <cstdio>
#include "trajopt/util/expected"
static int live = 0;
struct Counted {
  Counted() { ++live; }
  Counted(const Counted&) { ++live; }
  Counted(Counted&&) noexcept { ++live; }
  Counted& operator=(const Counted&) = default;
  ~Counted() { --live; }
};
int main() {
  {
    trajopt::expected<Counted, int> a;
    const trajopt::unexpected<int> e{3};
    a = e;
    a.emplace();
    a = e;
  }
  if (live != 0) std::puts("FAILED: every value is destroyed");
  return live != 0;
}""", kind="plain")

bug("C21-and-then-moves", "C21",
    [(EXP, "  TRAJOPT_EXPECTED_11_CONSTEXPR auto and_then(F&& f) & {\n    return and_then_impl(*this, std::forward<F>(f));",
      "  TRAJOPT_EXPECTED_11_CONSTEXPR auto and_then(F&& f) & {\n    return and_then_impl(std::move(*this), std::forward<F>(f));")],
    "chaining on a result that is used again, with a function that takes its argument by value",
    "chaining on an lvalue empties the result it is called on",
    r'''
#include <cstdio>
#include <string>
#include "trajopt/util/expected"
int main() {
  using R = trajopt::expected<std::string, int>;
  R a{std::string(100, 'x')};
  auto b = a.and_then([](std::string s) { return R{s}; });
  bool ok = a.value() == std::string(100, 'x') && b.value() == a.value();
  if (!ok) std::puts("FAILED: chaining leaves the result alone");
  return !ok;
}''', kind="plain")

bug("C22-polygon-prefix", "C22",
    [("src/RustFFI.cpp", "  if (x.size() != y.size()) [[unlikely]] {\n    return;\n  }\n\n  std::vector<trajopt::Translation2d> cppPoints;\n  for (size_t i = 0; i < x.size(); ++i) {",
      "  std::vector<trajopt::Translation2d> cppPoints;\n  for (size_t i = 0; i < std::min(x.size(), y.size()); ++i) {")],
    "a polygon obstacle with a missing coordinate",
    "the polygon is applied without its last corner instead of being ignored",
    r'''
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
// the builder's path is not public, so count the constraints given to the solver
static size_t Constraints(size_t nx, size_t ny) {
  trajopt::rsffi::SwervePathBuilder b;
  trajopt::rsffi::SwerveDrivetrain d;
  d.mass = 4;
  d.moi = 2;
  d.modules.push_back(trajopt::rsffi::SwerveModule{1, 1, 0.5, 10, 10});
  d.modules.push_back(trajopt::rsffi::SwerveModule{-1, -1, 0.5, 10, 10});
  b.set_drivetrain(d);
  b.set_bumpers(1, 1);
  b.pose_wpt(0, 0, 0, 0);
  b.pose_wpt(1, 1, 0, 0);
  rust::Vec<double> x, y;
  for (size_t i = 0; i < nx; ++i) x.push_back(5.0 + i);
  for (size_t i = 0; i < ny; ++i) y.push_back(5.0 + i * i);
  b.sgmt_polygon_obstacle(0, 1, x, y, 0.1);
  size_t n = 0;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    n = p.EnvInequality().size();
    return sleipnir::SolverStatus{};
  };
  b.generate(false, 0);
  return n;
}
int main() {
  size_t none = Constraints(0, 1);
  Check(Constraints(3, 3) > none, "a polygon is applied");
  Check(Constraints(4, 3) == none, "a polygon with differing counts is ignored");
  return failures;
}''', kind="ffi")

bug("C24-one-interval-step", "C24",
    [(GEN, "    dt_sgmt.SetValue(5.0 / N_sgmt);", "    dt_sgmt.SetValue(5.0 / (N_sgmt - 1));")],
    "a segment with a single control interval",
    "the initial time step of the segment is infinite, so the problem is not finite at its starting point",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {1.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  trajopt::SwerveTrajectoryGenerator g{b};
  Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    for (auto& v : p.EnvDecisionVariables()) Check(std::isfinite(v.Value()), "the starting point is finite");
    Check(std::isfinite(p.EnvCost()->Value()), "the cost is finite");
    return sleipnir::SolverStatus{};
  });
  return failures;
}''')

bug("C23-narrow-handle", "C23",
    [("src/lib.rs", "        match self.path_builder.generate(diagnostics, handle) {", "        match self.path_builder.generate(diagnostics, handle as i32 as i64) {")],
    "a handle that does not fit in 32 bits",
    "progress callbacks get another handle than the one passed to generate()",
    r"""
extern "C" void rs_generate(int64_t handle, void (*report)(int64_t, double));
static int64_t got = 0;
static double at = 0;
static int reports = 0;
int main() {
  sleipnir::env::Hook() = [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(100);
    while (std::chrono::steady_clock::now() < until) {
    }
    p.EnvIterate(0);
    return sleipnir::SolverStatus{};
  };
  for (int64_t handle : {int64_t{7}, int64_t{-1}, int64_t{1} << 40, (int64_t{1} << 32) + 7}) {
    reports = 0;
    rs_generate(handle, [](int64_t h, double x) { got = h; at = x; ++reports; });
    Check(reports == 1 && got == handle && at == 2.0, "the report carries the handle");
  }
  return failures;
}""", kind="rust", shim=r"""
use std::sync::Mutex;
use trajoptlib::{HolonomicTrajectory, SwerveDrivetrain, SwerveModule, SwervePathBuilder};
type Report = extern "C" fn(i64, f64);
static REPORT: Mutex<Option<Report>> = Mutex::new(None);
fn callback(t: HolonomicTrajectory, handle: i64) {
    (REPORT.lock().unwrap().unwrap())(handle, t.samples.last().unwrap().x)
}
#[no_mangle]
pub extern "C" fn rs_generate(handle: i64, report: Report) {
    *REPORT.lock().unwrap() = Some(report);
    let m = |x: f64, y: f64| SwerveModule { x, y, wheel_radius: 0.5, wheel_max_angular_velocity: 10.0, wheel_max_torque: 10.0 };
    let mut b = SwervePathBuilder::new();
    b.set_drivetrain(&SwerveDrivetrain { mass: 4.0, moi: 2.0, modules: vec![m(1.0, 1.0), m(-1.0, -1.0)] });
    b.pose_wpt(0, 0.0, 0.0, 0.0);
    b.pose_wpt(1, 2.0, 0.0, 0.0);
    b.set_control_interval_counts(vec![2]);
    b.add_progress_callback(callback);
    b.generate(false, handle).unwrap();
}
""")

# ---------------------------------------------------------------- second wave

bug("C01-sorted-modules", "C01",
    [(BLD, "  path.drivetrain = std::move(drivetrain);",
      "  path.drivetrain = std::move(drivetrain);\n"
      "  // keep the modules counterclockwise\n"
      "  std::stable_sort(path.drivetrain.modules.begin(),\n                   path.drivetrain.modules.end(),\n"
      "                   [](const auto& a, const auto& b) {\n"
      "                     return std::atan2(a.translation.Y(), a.translation.X()) <\n"
      "                            std::atan2(b.translation.Y(), b.translation.X());\n                   });"),
     (BLD, "#include <utility>\n", "#include <algorithm>\n#include <cmath>\n#include <utility>\n")],
    "modules listed in another order than counterclockwise from the rear right one",
    "the path's modules (and so the forces of the solution) are in another order than given",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  auto d = Square();
  std::swap(d.modules.at(0), d.modules.at(3));
  d.modules.at(2).wheelRadius = 0.25;
  b.SetDrivetrain(d);
  auto& m = b.GetPath().drivetrain.modules;
  Check(m.size() == 4, "all modules are kept");
  for (size_t i = 0; i < m.size(); ++i)
    Check(m[i].translation.X() == d.modules[i].translation.X() && m[i].translation.Y() == d.modules[i].translation.Y() &&
              m[i].wheelRadius == d.modules[i].wheelRadius,
          "modules keep their order");
  return failures;
}''')

bug("C02-last-sample-skipped", "C02",
    [(GEN, "      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);", "      // the last sample is constrained with the waypoint\n      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0) - 1;"),
     (BLH, "      path.waypoints.at(index).waypointConstraints.push_back(constraint);\n      path.waypoints.at(index).segmentConstraints.push_back(constraint);",
      "      // waypoints within the span belong to the segments\n      if (index == toIndex) {\n"
      "        path.waypoints.at(index).waypointConstraints.push_back(constraint);\n      }\n"
      "      path.waypoints.at(index).segmentConstraints.push_back(constraint);")],
    "a constraint over at least two segments (two changes that each leave a covered sample alone)",
    "waypoints strictly within a span are not constrained",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(2, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2, 2});
  b.SgmtConstraint(0, 2, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0});
  trajopt::SwerveTrajectoryGenerator g{b};
  for (size_t i = 0; i < 5; ++i) {
    std::vector<double> v(5, 0.5);
    Check(Admits(g, Straight(0, 0, v, {1e-3, 1e-3, 1e-3, 1e-3})), "slow motion is admitted");
    v[i] = 1.5;
    Check(!Admits(g, Straight(0, 0, v, {1e-3, 1e-3, 1e-3, 1e-3})), "every sample of the span is limited");
  }
  return failures;
}''')

bug("C03-unit-direction", "C03",
    [(CON + "LinearVelocityDirectionConstraint.hpp", "    auto dot = linearVelocity.Dot(Translation2d{m_angle.Cos(), m_angle.Sin()});\n    problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());",
      "    // parallel vectors have the same slope\n    problem.SubjectTo(linearVelocity.Y() * m_angle.Cos() ==\n                      linearVelocity.X() * std::abs(m_angle.Sin()));"),
     (CON + "LinearVelocityDirectionConstraint.hpp", "#include <sleipnir/autodiff/Variable.hpp>\n", "#include <cmath>\n\n#include <sleipnir/autodiff/Variable.hpp>\n")],
    "a direction that points to the right (negative angle)",
    "the mirrored direction is admitted and the requested one is not",
    r'''
int main() {
  for (double angle : {0.0, 1.0, -1.0}) {
    sleipnir::OptimizationProblem p;
    trajopt::Translation2v v{p.DecisionVariable(), p.DecisionVariable()};
    trajopt::Pose2v pose{p.DecisionVariable(), p.DecisionVariable(), {p.DecisionVariable(), p.DecisionVariable()}};
    trajopt::LinearVelocityDirectionConstraint c{angle};
    auto w = p.DecisionVariable(), al = p.DecisionVariable();
    trajopt::Translation2v a{p.DecisionVariable(), p.DecisionVariable()};
    c.Apply(p, pose, v, w, a, al);
    auto holds = [&](double x, double y) {
      p.EnvDecisionVariables().at(0).SetValue(x);
      p.EnvDecisionVariables().at(1).SetValue(y);
      for (auto& e : p.EnvEquality())
        if (std::abs(e.Value()) > 1e-9) return false;
      for (auto& e : p.EnvInequality())
        if (e.Value() < -1e-9) return false;
      return true;
    };
    Check(holds(2 * std::cos(angle), 2 * std::sin(angle)), "the direction is admitted");
    Check(!holds(2 * std::cos(angle + 0.5), 2 * std::sin(angle + 0.5)), "another direction is not");
  }
  return failures;
}''', inc=["LinearVelocityDirectionConstraint"])

bug("C04-first-margin", "C04",
    [(BLD, "                                     const Obstacle& obstacle) {\n  for (auto& _bumpers : bumpers) {\n    auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;\n",
      "                                     const Obstacle& obstacle) {\n  for (auto& _bumpers : bumpers) {\n    auto minDistance =\n        bumpers.front().safetyDistance + obstacle.safetyDistance;\n")],
    "two sets of bumpers with different safety distances and an obstacle on a span",
    "all bumpers keep the first ones' distance from the obstacle",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.AddBumpers({.safetyDistance = 0.1, .points = {{0.0, 0.0}}});
  b.AddBumpers({.safetyDistance = 1.0, .points = {{-1.0, 0.0}}});
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  b.SgmtObstacle(0, 1, {.safetyDistance = 0.1, .points = {{0.0, 0.0}}});
  trajopt::SwerveTrajectoryGenerator g{b};
  Check(Admits(g, Straight(0, 3, {0, 0}, {1e-3})), "far away is admitted");
  Check(!Admits(g, Straight(1, 0.5, {0, 0}, {1e-3})), "the second bumpers keep their own distance");
  return failures;
}''')

bug("C05-module-at-centre", "C05",
    [(GEN, "      auto r = translation.RotateBy(theta);\n", "      // the lever arm turns with the robot (a module on the axis needs no turning)\n"
      "      auto r = translation.Y() == 0.0 ? Translation2v{translation.X() * theta.Cos(), translation.X() * theta.Sin() * (1 - theta.Sin() * theta.Sin())}\n"
      "                                      : translation.RotateBy(theta);\n")],
    "a module on the robot's x axis and a heading that is neither along an axis of the field",
    "the moment of that module's force is computed with a lever arm that is too short",
    r'''
int main() {
  for (double y : {1.0, 0.0}) {
    trajopt::SwervePathBuilder b;
    trajopt::SwerveDrivetrain d;
    d.mass = 4;
    d.moi = 2;
    d.modules.push_back({{1.0, y}, 0.5, 1e3, 1e4});
    d.modules.push_back({{-1.0, -y}, 0.5, 1e3, 1e4});
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    // at rest, turned, with forces that cancel and turn the robot (no moment: along the lever arm)
    auto s = Straight(0, 0, {0, 0}, {1e-3}, 2);
    double th = 0.8, dir = std::atan2(y, 1.0) + th;
    for (size_t i = 0; i < 2; ++i) {
      s.thetacos[i] = std::cos(th);
      s.thetasin[i] = std::sin(th);
      s.moduleFX[i] = {3 * std::cos(dir), -3 * std::cos(dir)};
      s.moduleFY[i] = {3 * std::sin(dir), -3 * std::sin(dir)};
    }
    Check(Admits(g, s), "forces along the lever arms have no moment");
    s.moduleFX[1] = {-3 * std::sin(dir), 3 * std::sin(dir)};
    s.moduleFY[1] = {3 * std::cos(dir), -3 * std::cos(dir)};
    Check(!Admits(g, s), "forces across the lever arms have one");
  }
  return failures;
}''')

bug("C06-zero-unlimited", "C06",
    [(GEN, "      problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);",
      "      // no torque given: not limited\n      if (maxForce > 0.0) {\n        problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);\n      }")],
    "a module whose wheel has no torque (an unpowered one)",
    "the unpowered module may push with any force",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  auto d = Square();
  d.modules.at(2).wheelMaxTorque = 0;
  b.SetDrivetrain(d);
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  trajopt::SwerveTrajectoryGenerator g{b};
  Check(Admits(g, Straight(0, 0, {1, 1}, {1e-3})), "coasting is admitted");
  Check(!Admits(g, Straight(0, 0, {1, 1.001}, {1e-3})), "an unpowered module does not push");
  return failures;
}''')

bug("C08-third-point", "C08",
    [("include/trajopt/util/GenerateLinearInitialGuess.hpp", "          Linspace(initialGuessPoints.at(wptIndex).at(guessPointCount - 2).Y(),", "          Linspace(initialGuessPoints.at(wptIndex).front().Y(),")],
    "at least two intermediate guess points in one segment",
    "the last leg's y starts from the first intermediate point instead of the previous one",
    r'''
int main() {
  for (int points = 0; points <= 3; ++points) {
    trajopt::SwervePathBuilder b;
    b.WptInitialGuessPoint(0, {0.0, 0.0, {0.0}});
    b.WptInitialGuessPoint(1, {9.0, 9.0, {0.0}});
    std::vector<trajopt::Pose2d> mid;
    for (int i = 0; i < points; ++i) mid.push_back({1.0 + i, 1.0 + i, {0.0}});
    b.SgmtInitialGuessPoints(0, mid);
    b.ControlIntervalCounts({12});
    auto s = b.CalculateInitialGuess();
    for (size_t i = 0; i < s.x.size(); ++i) Check(Near(s.x[i], s.y[i]), "the guess stays on the diagonal");
  }
  return failures;
}''')

bug("C09-asin-turn", "C09",
    [(GEN, "        Rotation2d{thetacos, thetasin}\n            .RotateBy(-Rotation2d{last_thetacos, last_thetasin})\n            .Radians() /",
      "        std::asin(std::clamp(\n            last_thetacos * thetasin - last_thetasin * thetacos, -1.0, 1.0)) /")],
    "a guess that turns by more than a quarter turn from one sample to the next",
    "the guessed angular velocity is that of the supplementary angle",
    r'''
int main() {
  for (double turn : {0.5, 1.5, 2.5, -3.0}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(0, {0.0, 0.0, {0.25}});
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.25 + turn}});
    b.ControlIntervalCounts({1});
    double dt = b.CalculateInitialGuess().dt.at(0);
    trajopt::SwerveTrajectoryGenerator g{b};
    auto s = Solve(g, [](auto&, auto&) { return sleipnir::SolverStatus{}; });
    Check(Near(s->omega.at(1) * dt, turn), "the angular velocity is the turn over the time step");
  }
  return failures;
}''')

bug("C10-tiny-to-zero", "C10",
    [(GEN, "    valueRowVector.push_back(expression.Value());", "    // drop the solver's residue around zero\n    double value = expression.Value();\n    valueRowVector.push_back(std::abs(value) < 1e-6 ? 0.0 : value);")],
    "a final iterate with small values",
    "small values of the solver's iterate are returned as zero",
    r'''
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  for (double unit : {1.0, 1e-9}) {
    size_t n = 0;
    auto s = Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (auto& v : p.EnvDecisionVariables()) v.SetValue(unit * static_cast<double>(++n));
      return sleipnir::SolverStatus{};
    });
    Visit(*s, [&](double d) { Check(d >= unit && d <= unit * static_cast<double>(n), "values are the solver's"); });
  }
  return failures;
}''')

bug("C11-short-message", "C11",
    [("src/RustFFI.cpp", "    throw std::runtime_error{sol.error()};", "    char message[32];\n    std::snprintf(message, sizeof message, \"%s\", sol.error().c_str());\n    throw std::runtime_error{message};"),
     ("src/RustFFI.cpp", "#include <cstddef>\n", "#include <cstddef>\n#include <cstdio>\n")],
    "a failure through the foreign-function interface whose description is longer than 31 characters",
    "the text of the error is cut",
    r'''
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
int main() {
  using enum sleipnir::SolverExitCondition;
  for (auto e : {kTooFewDOFs, kLocallyInfeasible, kNonfiniteInitialCostOrConstraints, kMaxIterationsExceeded, kTimeout, kCallbackRequestedStop}) {
    trajopt::rsffi::SwervePathBuilder b;
    trajopt::rsffi::SwerveDrivetrain d;
    d.mass = 4;
    d.moi = 2;
    d.modules.push_back(trajopt::rsffi::SwerveModule{1, 1, 0.5, 10, 10});
    b.set_drivetrain(d);
    b.pose_wpt(0, 0, 0, 0);
    b.pose_wpt(1, 1, 0, 0);
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) {
      sleipnir::SolverStatus s;
      s.exitCondition = e;
      return s;
    };
    bool thrown = false;
    try {
      b.generate(false, 0);
    } catch (const std::exception& x) {
      thrown = true;
      Check(x.what() == std::string{sleipnir::ToMessage(e)}, "the text is the solver's");
    }
    Check(thrown, "a failure is an error");
  }
  return failures;
}''', kind="ffi")

bug("C12-callback-order", "C12",
    [(BLD, "  path.callbacks.push_back(callback);", "  path.callbacks.insert(path.callbacks.begin(), callback);")],
    "several progress callbacks",
    "callbacks are called in the reverse of the order of registration",
    r'''
#include <thread>
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  std::string order;
  for (char c : {'a', 'b', 'c'}) b.AddIntermediateCallback([&order, c](trajopt::SwerveSolution&, int64_t) { order += c; });
  trajopt::SwerveTrajectoryGenerator g{b};
  Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    for (int i = 0; i < 3; ++i) {
      std::this_thread::sleep_for(std::chrono::milliseconds(40));
      p.EnvIterate(i);
    }
    return sleipnir::SolverStatus{};
  });
  Check(order.size() >= 3 && order.size() % 3 == 0, "everyone is called");
  for (size_t i = 0; i < order.size(); ++i) Check(order[i] == "abc"[i % 3], "in the order of registration");
  return failures;
}''')

bug("C13-toggle", "C13",
    [("src/RustFFI.cpp", "  trajopt::GetCancellationFlag() = 1;", "  trajopt::GetCancellationFlag() ^= 1;")],
    "cancellation requested twice through the foreign-function interface while a generation runs",
    "the second request withdraws the first",
    r'''
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
int main() {
  for (int requests = 1; requests <= 3; ++requests) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({2});
    trajopt::SwerveTrajectoryGenerator g{b};
    bool stopped = false;
    Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      Check(!p.EnvIterate(0), "goes on");
      for (int i = 0; i < requests; ++i) trajopt::rsffi::cancel_all();
      stopped = p.EnvIterate(1);
      return sleipnir::SolverStatus{};
    });
    Check(stopped, "a generation in progress stops");
  }
  return failures;
}''', kind="ffi")

bug("C14-static-linspace", "C14",
    [(UTL, "  std::vector<double> result;\n  double delta", "  static std::vector<double> result;\n  result.clear();\n  double delta")],
    "initial guesses computed on two threads at once",
    "the threads share one buffer: a data race that mixes up or corrupts their guesses",
    r'''
#include <cstdio>
#include <cstddef>
#include <thread>
#include "trajopt/util/TrajoptUtil.hpp"
int main() {
  bool ok[4] = {true, true, true, true};
  std::vector<std::thread> threads;
  for (int t = 0; t < 4; ++t)
    threads.emplace_back([&, t] {
      for (int i = 0; i < 20000; ++i) {
        auto v = trajopt::Linspace(t, t + 1, 100 + t);
        ok[t] &= v.size() == 100u + t && v.front() > t && v.back() == t + 1;
      }
    });
  for (auto& t : threads) t.join();
  for (bool o : ok)
    if (!o) {
      std::puts("FAILED: threads do not interfere");
      return 1;
    }
  return 0;
}''', kind="plain")

bug("C15-merge-coincident", "C15",
    [(TRJ, "        ts += solution.dt[samp - 1];\n      }", "        ts += solution.dt[samp - 1];\n        // timestamps are strictly increasing\n        if (!samples.empty() && ts <= samples.back().timestamp) {\n          continue;\n        }\n      }")],
    "a segment that takes no time",
    "samples with the same timestamp as the one before are left out",
    r'''
#include <cstdio>
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
int main() {
  trajopt::SwerveSolution s;
  s.dt = {0.5, 0.0, 0.25};
  s.x = s.y = s.thetacos = s.thetasin = s.vx = s.vy = s.omega = s.ax = s.ay = s.alpha = {1, 2, 3, 4};
  s.moduleFX = s.moduleFY = {{1}, {1}, {1}, {1}};
  trajopt::HolonomicTrajectory t{s};
  bool ok = t.samples.size() == 4;
  for (size_t i = 0; ok && i < 4; ++i) ok = t.samples[i].x == s.x[i];
  ok = ok && t.samples[2].timestamp == 0.5 && t.samples[3].timestamp == 0.75;
  if (!ok) std::puts("FAILED: one sample per pose");
  return !ok;
}''', kind="plain")

bug("C16-narrow-accumulator", "C16",
    [(UTL, "    index += N.at(_wptIndex - 1);", "    // (indices are 16 bits wide)\n    index = (index + N.at(_wptIndex - 1)) & 0xFFFF;")],
    "more than 65535 control intervals in all",
    "indices wrap around, so samples share variables",
    r'''
#include <cstdio>
#include <cstddef>
#include <cstdint>
#include "trajopt/util/TrajoptUtil.hpp"
int main() {
  std::vector<size_t> n{40000, 40000, 3};
  bool ok = trajopt::GetIndex(n, 2, 0) == 40001 && trajopt::GetIndex(n, 3, 1) == 80002 && trajopt::GetIndex(n, 4) == 80004;
  if (!ok) std::puts("FAILED: indices have no collisions");
  return !ok;
}''', kind="plain")

bug("C17-small-moves", "C17",
    [(UTL, "  double delta = (endValue - startValue) / numSamples;\n", "  double delta = (endValue - startValue) / numSamples;\n  if (std::abs(endValue - startValue) < 1e-6) {\n    delta = 0.0;  // not a move\n  }\n")],
    "a move by less than a millionth",
    "the interpolation stays at its start instead of ending at its target",
    r'''
#include <cstdio>
#include <cstddef>
#include "trajopt/util/TrajoptUtil.hpp"
int main() {
  bool ok = true;
  for (double end : {1.0, 1e-3, 1e-7, 0.0, -1e-8}) {
    auto v = trajopt::Linspace(0, end, 4);
    ok &= v.size() == 4 && std::abs(v.back() - end) <= 1e-12 * std::abs(end) && std::abs(v.front() - end / 4) <= 1e-12 * std::abs(end);
  }
  if (!ok) std::puts("FAILED: ends at its target");
  return !ok;
}''', kind="plain")

bug("C18-distance-cancellation", "C18",
    [("include/trajopt/geometry/Translation2.hpp", "    return hypot(other.X() - m_x, other.Y() - m_y);  // NOLINT",
      "    // NOLINTNEXTLINE\n    return sqrt(other.SquaredNorm() + SquaredNorm() - 2.0 * Dot(other));")],
    "two points close to each other and far from the origin",
    "the distance loses all precision (or is not a number)",
    r'''
#include "trajopt/geometry/Translation2.hpp"
int main() {
  for (double far : {0.0, 1.0, 1e6})
    for (double near : {1.0, 1e-3}) {
      trajopt::Translation2d a{far, far}, b{far + 3 * near, far + 4 * near};
      Check(std::abs(a.Distance(b) - 5 * near) < 1e-6 * near, "the distance between two points");
    }
  return failures;
}''')

bug("C22-bumper-corner", "C22",
    [("src/RustFFI.cpp", "                                  {-length / 2, -width / 2},\n", "                                  {-length / 2, -length / 2},\n")],
    "bumpers that are not square",
    "one corner of the bumpers is in the wrong place",
    r'''
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
static trajopt::SwerveSolution Still(double x, double y) { return Straight(x, y, {0, 0}, {1e-3}, 2); }
int main() {
  for (double width : {2.0, 6.0}) {
    trajopt::rsffi::SwervePathBuilder b;
    trajopt::rsffi::SwerveDrivetrain d;
    d.mass = 4;
    d.moi = 2;
    d.modules.push_back(trajopt::rsffi::SwerveModule{1, 1, 0.5, 10, 10});
    d.modules.push_back(trajopt::rsffi::SwerveModule{-1, -1, 0.5, 10, 10});
    b.set_drivetrain(d);
    b.set_bumpers(2.0, width);
    b.empty_wpt(1, 0, 0, 0);
    b.sgmt_circle_obstacle(0, 1, 0, 0, 0.25);
    rust::Vec<size_t> n;
    n.push_back(1);
    b.set_control_interval_counts(n);
    // smallest value of the constraints with the robot's rear right corner at the obstacle
    double worst = 1e9;
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      auto s = Still(1.0, width / 2);
      // the order of the variables of a sample: x, y, cos, sin first
      auto& v = p.EnvDecisionVariables();
      for (auto& e : v) e.SetValue(0);
      size_t per = (v.size() - 1) / 2;
      for (size_t i = 0; i < 2; ++i) {
        v.at(i * per).SetValue(s.x[i]);
        v.at(i * per + 1).SetValue(s.y[i]);
        v.at(i * per + 2).SetValue(1);
      }
      for (auto& e : p.EnvInequality()) worst = std::min(worst, e.Value());
      return sleipnir::SolverStatus{};
    };
    b.generate(false, 0);
    Check(std::abs(worst + 0.26 * 0.26) < 1e-9, "the corner touches the obstacle");
  }
  return failures;
}''', kind="ffi")

bug("C24-unit-scale", "C24",
    [(CON + "LinearVelocityMaxMagnitudeConstraint.hpp", "    if (m_maxMagnitude == 0.0) {\n      problem.SubjectTo(linearVelocity.X() == 0.0);\n      problem.SubjectTo(linearVelocity.Y() == 0.0);\n    } else {\n      problem.SubjectTo(linearVelocity.SquaredNorm() <=\n                        m_maxMagnitude * m_maxMagnitude);\n    }",
      "    // relative to the limit, so that all limits are scaled alike\n    problem.SubjectTo(linearVelocity.SquaredNorm() /\n                          (m_maxMagnitude * m_maxMagnitude) <=\n                      1.0);")],
    "a limit of zero",
    "the constraint is not a number at rest",
    r'''
int main() {
  for (double limit : {2.0, 0.0}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {1.0, 0.0, {0.0}});
    b.WptConstraint(0, trajopt::LinearVelocityMaxMagnitudeConstraint{limit});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (auto& c : p.EnvInequality()) Check(std::isfinite(c.Value()), "constraints are finite at the start");
      for (auto& c : p.EnvEquality()) Check(std::isfinite(c.Value()), "constraints are finite at the start");
      return sleipnir::SolverStatus{};
    });
  }
  return failures;
}''')

# ---------------------------------------------------------------- third wave

bug("C07-backward-step", "C07",
    [(GEN, "    problem.SubjectTo(dt_sgmt >= 0);\n", "    // (a single step is bounded by the kinematics)\n    if (N_sgmt > 1) {\n      problem.SubjectTo(dt_sgmt >= 0);\n    }\n")],
    "a segment of one control interval",
    "the time step of such a segment may be negative",
    r'''
int main() {
  for (size_t n : {2, 1}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({n});
    trajopt::SwerveTrajectoryGenerator g{b};
    std::vector<double> v(n + 1, 0.5);
    Check(Admits(g, Straight(0, 0, v, std::vector<double>(n, 1e-3))), "going forward in time is admitted");
    Check(!Admits(g, Straight(0, 0, v, std::vector<double>(n, -1e-3))), "going back in time is not");
  }
  return failures;
}''')

bug("C23-closed-polygon", "C23",
    [("src/lib.rs", "        x: Vec<f64>,\n        y: Vec<f64>,\n        radius: f64,\n    ) {\n        crate::ffi",
      "        mut x: Vec<f64>,\n        mut y: Vec<f64>,\n        radius: f64,\n    ) {\n        // polygons are closed: the first corner need not be repeated\n"
      "        if x.len() > 1 && x.first() == x.last() {\n            x.pop();\n            y.pop();\n        }\n        crate::ffi")],
    "a polygon whose last corner has the same x coordinate as its first",
    "the last corner of the polygon is lost",
    r"""
extern "C" void rs_polygon(const double* x, const double* y, size_t n);
// How many constraints the problem of a path with such an obstacle has.
static size_t Constraints(const std::vector<double>& x, const std::vector<double>& y) {
  static size_t count;
  sleipnir::env::Hook() = [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    count = p.EnvInequality().size();
    return sleipnir::SolverStatus{};
  };
  rs_polygon(x.data(), y.data(), x.size());
  return count;
}
int main() {
  // four corners each; the one above begins and ends on a vertical edge
  size_t slanted = Constraints({5.0, 6.0, 6.5, 5.5}, {5.0, 5.0, 6.0, 6.0});
  size_t upright = Constraints({5.0, 6.0, 6.0, 5.0}, {5.0, 5.0, 6.0, 6.0});
  Check(slanted == upright, "every corner of the polygon counts");
  return failures;
}""", kind="rust", shim=r"""
use trajoptlib::{SwerveDrivetrain, SwerveModule, SwervePathBuilder};
#[no_mangle]
pub unsafe extern "C" fn rs_polygon(x: *const f64, y: *const f64, n: usize) {
    let m = |x: f64, y: f64| SwerveModule { x, y, wheel_radius: 0.5, wheel_max_angular_velocity: 10.0, wheel_max_torque: 10.0 };
    let mut b = SwervePathBuilder::new();
    b.set_drivetrain(&SwerveDrivetrain { mass: 4.0, moi: 2.0, modules: vec![m(1.0, 1.0), m(-1.0, -1.0)] });
    b.set_bumpers(1.0, 1.0);
    b.pose_wpt(0, 0.0, 0.0, 0.0);
    b.pose_wpt(1, 2.0, 0.0, 0.0);
    b.set_control_interval_counts(vec![2]);
    b.sgmt_polygon_obstacle(
        0,
        1,
        std::slice::from_raw_parts(x, n).to_vec(),
        std::slice::from_raw_parts(y, n).to_vec(),
        0.25,
    );
    b.generate(false, 0).unwrap();
}
""")

bug("C26-sticky-diagnostics", "C26",
    [(GEN, "  auto status = problem.Solve({.tolerance = 1e-4, .diagnostics = diagnostics});",
      "  static sleipnir::SolverConfig config{.tolerance = 1e-4};\n  config.diagnostics |= diagnostics;\n  auto status = problem.Solve(config);")],
    "a generation with diagnostics before one without",
    "once diagnostics were asked for, every later generation prints them",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b}, h{b};
  bool asked = false;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig& c) {
    Check(c.diagnostics == asked, "diagnostics are as asked for");
    return sleipnir::SolverStatus{};
  };
  for (bool d : {false, true, false}) {
    asked = d;
    g.Generate(d);
  }
  h.Generate();
  return failures;
}""")

bug("C26-grows-when-run", "C26",
    [(GEN, "  // tolerance of 1e-4 is 0.1 mm\n", "  // time never runs backwards\n  for (auto& step : dt) {\n    problem.SubjectTo(step >= 0.0);\n  }\n\n  // tolerance of 1e-4 is 0.1 mm\n")],
    "a generator that generates twice",
    "every generation leaves more constraints in the generator's problem",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  std::vector<size_t> sizes;
  for (int i = 0; i < 2; ++i)
    Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      sizes.push_back(p.EnvInequality().size() + p.EnvEquality().size());
      return sleipnir::SolverStatus{};
    });
  Check(sizes.size() == 2 && sizes[0] == sizes[1], "the problem does not grow");
  return failures;
}""")

bug("C15-nonfinite-step", "C15",
    [(TRJ, "        ts += solution.dt[samp - 1];", "        // (a step below the clock's resolution takes no time)\n        if (solution.dt[samp - 1] > 1e-6) {\n          ts += solution.dt[samp - 1];\n        }")],
    "time steps of a microsecond or less",
    "very short steps are left out of the timestamps",
    r"""
#include <cstdio>
#include <cstddef>
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
int main() {
  trajopt::SwerveSolution s;
  for (int i = 0; i < 4; ++i) {
    for (auto* f : {&s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha}) f->push_back(i);
    s.moduleFX.push_back({1.0 * i});
    s.moduleFY.push_back({2.0 * i});
    if (i < 3) s.dt.push_back(5e-7);
  }
  trajopt::HolonomicTrajectory t{s};
  bool ok = t.samples.size() == 4;
  for (size_t i = 0; ok && i < 4; ++i) ok = std::abs(t.samples[i].timestamp - 5e-7 * i) < 1e-12;
  if (!ok) std::puts("FAILED: timestamps add up");
  return !ok;
}""", kind="plain")

bug("C15-shared-forces", "C15",
    [(TRJ, "          solution.moduleFX[samp], solution.moduleFY[samp]);", "          solution.moduleFX[samp],\n          solution.moduleFY[samp].empty() ? solution.moduleFX[samp]\n                                          : solution.moduleFY[samp]);")],
    "a solution with forces in the X direction only (rows of different lengths)",
    "missing forces are replaced by those in the other direction",
    r"""
#include <cstdio>
#include <cstddef>
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
int main() {
  trajopt::SwerveSolution s;
  for (int i = 0; i < 2; ++i) {
    for (auto* f : {&s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha}) f->push_back(i);
    s.moduleFX.push_back({1.0 * i});
    s.moduleFY.push_back({});
  }
  s.dt = {0.5};
  trajopt::HolonomicTrajectory t{s};
  bool ok = t.samples.size() == 2 && t.samples[1].moduleForcesX.size() == 1 && t.samples[1].moduleForcesY.empty();
  if (!ok) std::puts("FAILED: forces are copied");
  return !ok;
}""", kind="plain")

bug("C16-overrun-clamped", "C16",
    [(UTL, "    index += N.at(_wptIndex - 1);", "    index += N.at(_wptIndex - 1 < N.size() ? _wptIndex - 1 : 0);")],
    "a waypoint index beyond the one after the last segment",
    "an index past the end is answered as if the first segment were repeated",
    r"""
#include <cstdio>
#include <cstddef>
#include <stdexcept>
#include "trajopt/util/TrajoptUtil.hpp"
int main() {
  std::vector<size_t> n{2, 3};
  bool ok = trajopt::GetIndex(n, 3) == 6;
  try {
    trajopt::GetIndex(n, 4);
    ok = false;
  } catch (const std::out_of_range&) {
  }
  if (!ok) std::puts("FAILED: an index past the end is rejected");
  return !ok;
}""", kind="plain")

bug("C17-running-sum", "C17",
    [(UTL, "    result.push_back(startValue + index * delta);", "    // (no multiplication per sample)\n    startValue += delta;\n    result.push_back(startValue);")],
    "many samples (rounding errors add up)",
    "a long interpolation does not end at its target",
    r"""
#include <cstdio>
#include <cstddef>
#include "trajopt/util/TrajoptUtil.hpp"
int main() {
  bool ok = true;
  for (size_t n : {10, 100000})
    for (double target : {0.1, 1000.0}) {
      auto v = trajopt::Linspace(-1e6, target, n);
      ok &= v.size() == n && std::abs(v.back() - target) < 1e-8;
    }
  if (!ok) std::puts("FAILED: ends at its target");
  return !ok;
}""", kind="plain")

bug("C13-late-clear", "C13",
    [(GEN, "  if (static_cast<int>(status.exitCondition) < 0 ||", "  // the request has been served\n  if (status.exitCondition ==\n      sleipnir::SolverExitCondition::kCallbackRequestedStop) {\n    GetCancellationFlag() = 0;\n  }\n\n  if (static_cast<int>(status.exitCondition) < 0 ||")],
    "two generations running when cancellation is requested, one of which returns before the other's next iteration",
    "the second generation is not cancelled",
    r"""
#include "trajopt/util/Cancellation.hpp"
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator outer{b}, inner{b};
  bool stopped = false;
  int depth = 0;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    sleipnir::SolverStatus s;
    if (++depth == 1) {
      // the other generation starts, is cancelled and returns between two iterations of this one
      inner.Generate();
      stopped = p.EnvIterate(1);
      if (stopped) s.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
    } else {
      trajopt::GetCancellationFlag() = 1;
      if (p.EnvIterate(0)) s.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
    }
    return s;
  };
  auto r = outer.Generate();
  Check(stopped && !r.has_value(), "every generation in progress stops");
  return failures;
}""")

bug("C02-same-type-once", "C02",
    [(BLD, "#include <utility>\n", "#include <utility>\n#include <variant>\n"),
     (GEN, "    for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {\n",
      "    for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {\n      // the last sample of a segment is constrained with the segment\n"
      "      if (wptIndex > 0 &&\n          std::any_of(path.waypoints.at(wptIndex).segmentConstraints.begin(),\n"
      "                      path.waypoints.at(wptIndex).segmentConstraints.end(),\n                      [&](const auto& other) {\n"
      "                        return other.index() == constraint.index();\n                      })) {\n        continue;\n      }\n"),
     (GEN, "#include <cmath>\n", "#include <algorithm>\n#include <cmath>\n")],
    "a waypoint constraint within a span that is under a constraint of the same type",
    "the waypoint's own (tighter) constraint is not applied",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(2, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2, 2});
  b.SgmtConstraint(0, 2, trajopt::LinearVelocityMaxMagnitudeConstraint{2.0});
  b.WptConstraint(1, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0});
  trajopt::SwerveTrajectoryGenerator g{b};
  std::vector<double> v(5, 0.5);
  Check(Admits(g, Straight(0, 0, v, {1e-3, 1e-3, 1e-3, 1e-3})), "slow motion is admitted");
  v[2] = 1.5;
  Check(!Admits(g, Straight(0, 0, v, {1e-3, 1e-3, 1e-3, 1e-3})), "the waypoint's own limit holds");
  return failures;
}""")

bug("C10-last-segment-steps", "C10",
    [(GEN, "    sleipnir::Variable dt_sgmt = dt.at(sgmtIndex);\n    double dt_val = dt_sgmt.Value();",
      "    sleipnir::Variable dt_sgmt = dt.at(sgmtIndex);\n    // (steps are nonnegative up to the tolerance)\n    double dt_val = std::max(dt_sgmt.Value(), 0.0);"),
     (GEN, "#include <cmath>\n", "#include <algorithm>\n#include <cmath>\n")],
    "a final iterate with a time step that is negative within the tolerance",
    "the step returned is not the solver's",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  for (double value : {0.25, -1e-5}) {
    auto s = Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (auto& v : p.EnvDecisionVariables()) v.SetValue(value);
      return sleipnir::SolverStatus{};
    });
    Visit(*s, [&](double d) { Check(d == value, "values are the solver's"); });
  }
  return failures;
}""")

bug("C18-angle-of-long", "C18",
    [("include/trajopt/geometry/Rotation2.hpp", "  constexpr T Radians() const { return atan2(m_sin, m_cos); }  // NOLINT",
      "  constexpr T Radians() const {\n    // (the cosine and sine of an angle are at most one)\n    if constexpr (std::same_as<T, double>) {\n"
      "      return m_sin < 0.0 ? -std::acos(m_cos < 1.0 ? m_cos : 1.0)\n                         : std::acos(m_cos < 1.0 ? m_cos : 1.0);\n    } else {\n"
      "      return atan2(m_sin, m_cos);  // NOLINT\n    }\n  }")],
    "a rotation made from a vector that is not of unit length",
    "the angle is that of another direction",
    r"""
#include "trajopt/geometry/Translation2.hpp"
int main() {
  for (double length : {1.0, 0.25, 4.0})
    for (double a : {0.5, 2.0, -1.0}) {
      trajopt::Translation2d t{length * std::cos(a), length * std::sin(a)};
      Check(std::abs(t.Angle().Radians() - a) < 1e-9, "the angle of a vector");
    }
  return failures;
}""")

bug("C22-short-sample", "C22",
    [("src/RustFFI.cpp", "        callback(HolonomicTrajectory{rustSamples}, handle);", "        // nothing to report before the first step\n        if (rustSamples.size() > 1) {\n          callback(HolonomicTrajectory{rustSamples}, handle);\n        }")],
    "progress of a path with a single sample, through the foreign-function interface",
    "the progress callback is not called",
    r"""
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
#include <thread>
static int reports = 0;
static void Report(trajopt::rsffi::HolonomicTrajectory, int64_t, void*) { ++reports; }
int main() {
  for (size_t last : {1, 0}) {
    trajopt::rsffi::SwervePathBuilder b;
    trajopt::rsffi::SwerveDrivetrain d;
    d.mass = 4;
    d.moi = 2;
    d.modules.push_back(trajopt::rsffi::SwerveModule{1, 1, 0.5, 10, 10});
    b.set_drivetrain(d);
    b.pose_wpt(last, 0, 0, 0);
    b.add_progress_callback(rust::Fn<void(trajopt::rsffi::HolonomicTrajectory, int64_t)>::EnvMake(&Report, nullptr));
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      std::this_thread::sleep_for(std::chrono::milliseconds(100));
      p.EnvIterate(0);
      return sleipnir::SolverStatus{};
    };
    reports = 0;
    b.generate(false, 0);
    Check(reports == 1, "progress is reported");
  }
  return failures;
}""", kind="ffi")

bug("C12-idle-callbacks", "C12",
    [(GEN, "    auto soln = generator.ConstructSwerveSolution();\n    for (auto& callback : generator.path.callbacks) {\n      callback(soln, handle);",
      "    static thread_local SwerveSolution soln;\n    soln = generator.ConstructSwerveSolution();\n    for (auto& callback : generator.path.callbacks) {\n      callback(soln, handle);")],
    "a progress callback that itself runs another generation which reports progress (two callbacks)",
    "the callbacks after it are given the other generation's progress",
    r"""
#include <thread>
int main() {
  trajopt::SwervePathBuilder other;
  other.SetDrivetrain(Square());
  other.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  other.ControlIntervalCounts({5});
  other.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) {});
  trajopt::SwerveTrajectoryGenerator inner{other};
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  int reports = 0;
  b.AddIntermediateCallback([&](trajopt::SwerveSolution&, int64_t) { inner.Generate(); });
  b.AddIntermediateCallback([&](trajopt::SwerveSolution& s, int64_t) {
    ++reports;
    Check(s.x.size() == 3, "callbacks are given their own generation's progress");
  });
  trajopt::SwerveTrajectoryGenerator g{b};
  Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    p.EnvIterate(0);
    return sleipnir::SolverStatus{};
  });
  Check(reports == 1, "everyone is called");
  return failures;
}""")


# --------------------------------------------------------------- fourth wave

bug("C06-mirrored-module", "C06",
    [(GEN, "      Translation2v vWheelWrtRobot{\n",
      "      // the module opposite this one is equally fast\n      bool mirrored = false;\n"
      "      for (size_t other = 0; other < moduleIndex; ++other) {\n        const auto& m = path.drivetrain.modules.at(other);\n"
      "        mirrored |= m.translation.X() == -translation.X() &&\n                    m.translation.Y() == -translation.Y() &&\n"
      "                    m.wheelRadius == wheelRadius &&\n                    m.wheelMaxAngularVelocity == wheelMaxAngularVelocity &&\n"
      "                    m.wheelMaxTorque == wheelMaxTorque;\n      }\n      if (mirrored) {\n        continue;\n      }\n\n      Translation2v vWheelWrtRobot{\n")],
    "two equal modules placed symmetrically about the centre, and a state in which the second one is the faster",
    "the second module is not limited",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square(1e4, 4.0));  // wheels of 0.5 m: 2 m/s
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  trajopt::SwerveTrajectoryGenerator g{b};
  // driving sideways while turning in place of one sample: the corner at (-1, -1) is the fastest
  for (double w : {0.0, 0.7}) {
    trajopt::SwerveSolution s = Straight(0, 0, {0, 0}, {1e-3});
    s.vx = {0.8, 0.8};
    s.vy = {-0.8, -0.8};
    s.omega = {w, w};
    s.x[1] = 0.8e-3;
    s.y[1] = -0.8e-3;
    s.thetacos[1] = std::cos(w * 1e-3);
    s.thetasin[1] = std::sin(w * 1e-3);
    Check(Admits(g, s) == (w == 0.0), "wheel speeds are limited");
  }
  return failures;
}""")

bug("C04-out-of-reach", "C04",
    [(BLD, "void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,\n                                     const Obstacle& obstacle) {\n",
      "void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,\n                                     const Obstacle& obstacle) {\n"
      "  // obstacles far from every waypoint are out of the way\n  NewWpts(toIndex);\n  bool near = false;\n"
      "  for (size_t index = fromIndex; index <= toIndex; ++index) {\n    for (const auto& guess : initialGuessPoints.at(index)) {\n"
      "      for (const auto& point : obstacle.points) {\n        near |= guess.Translation().Distance(point) < 50.0;\n      }\n    }\n  }\n"
      "  if (!near) {\n    return;\n  }\n\n")],
    "an obstacle more than 50 m away from the guesses known when it is added",
    "the robot may drive through the obstacle",
    r"""
int main() {
  for (double x : {10.0, 100.0}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.AddBumpers({0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.SgmtObstacle(0, 1, {0.25, {{x, 0.0}}});
    // (the path's waypoints are moved afterwards)
    b.WptInitialGuessPoint(0, {x + 3.0, 0.0, {0.0}});
    b.WptInitialGuessPoint(1, {x + 4.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(Admits(g, Straight(x + 3.0, 0, {0.0, 0.0}, {1e-3})), "away from the obstacle is admitted");
    Check(!Admits(g, Straight(x + 0.75, 0, {0.0, 0.0}, {1e-3})), "near the obstacle is not");
  }
  return failures;
}""")

bug("C03-tiny-distance", "C03",
    [(CON + "LinePointConstraint.hpp", "    auto lineStart =\n", "    // (below the solver's tolerance)\n    if (m_minDistance < 1e-3) {\n      return;\n    }\n\n    auto lineStart =\n")],
    "a minimum distance of less than a millimetre",
    "the point may lie on the line",
    r"""
#include "trajopt/constraint/LinePointConstraint.hpp"
int main() {
  for (double distance : {2e-3, 5e-4}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.WptConstraint(0, trajopt::LinePointConstraint{{1.0, 1.0}, {1.0, -1.0}, {5.0, 0.0}, distance});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(Admits(g, Straight(4.0 - 3e-3, 0, {0.0, 0.0}, {1e-3})), "beside the point is admitted");
    Check(!Admits(g, Straight(4.0, 0, {0.0, 0.0}, {1e-3})), "on the point is not");
  }
  return failures;
}""")

bug("C03-large-limit", "C03",
    [(CON + "AngularVelocityMaxMagnitudeConstraint.hpp", "    if (m_maxMagnitude == 0.0) {", "    if (m_maxMagnitude > 20.0) {\n      // no robot turns that fast\n      return;\n    }\n    if (m_maxMagnitude == 0.0) {")],
    "an angular velocity limit above 20 rad/s, and wheels that allow more",
    "the limit is not applied",
    r"""
#include "trajopt/constraint/AngularVelocityMaxMagnitudeConstraint.hpp"
int main() {
  for (double limit : {10.0, 30.0}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square(1e9, 1e4));
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.WptConstraint(0, trajopt::AngularVelocityMaxMagnitudeConstraint{limit});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    for (double f : {0.9, 1.1}) {
      auto s = Straight(0, 0, {0.0, 0.0}, {1e-4});
      double w = f * limit;
      s.omega = {w, w};
      s.thetacos[1] = std::cos(w * 1e-4);
      s.thetasin[1] = std::sin(w * 1e-4);
      Check(Admits(g, s) == (f < 1), "the limit holds");
    }
  }
  return failures;
}""")

bug("C10-stale-report", "C10",
    [("include/trajopt/SwerveTrajectoryGenerator.hpp", "  SwerveSolution ConstructSwerveSolution();\n", "  SwerveSolution ConstructSwerveSolution();\n\n  /// The solution last constructed\n  SwerveSolution last;\n"),
     (GEN, "  std::vector<double> dtPerSamp;\n", "  // nothing to do if the robot has not moved since\n  if (auto rowX = RowSolutionValue(x), rowY = RowSolutionValue(y);\n"
      "      rowX == last.x && rowY == last.y &&\n      RowSolutionValue(thetasin) == last.thetasin) {\n    return last;\n  }\n\n  std::vector<double> dtPerSamp;\n"),
     (GEN, "  return SwerveSolution{dtPerSamp,\n", "  return last = SwerveSolution{dtPerSamp,\n")],
    "a report of progress (or an earlier run) whose poses equal those of the final iterate while other values differ",
    "the solution returned has the velocities, forces and time steps of that report",
    r"""
#include <thread>
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  double n = 0;
  for (int run = 0; run < 2; ++run) {
    auto s = Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      // the first ten variables of each sample are its state
      for (auto& v : p.EnvDecisionVariables()) v.SetValue(0.0);
      p.EnvDecisionVariables().back().SetValue(n += 1.0);
      return sleipnir::SolverStatus{};
    });
    bool found = false;
    Visit(*s, [&](double d) { found |= d == n; });
    Check(found, "the solution has the solver's values");
  }
  return failures;
}""")

bug("C14-callback-once", "C14",
    [("include/trajopt/SwerveTrajectoryGenerator.hpp", "  sleipnir::OptimizationProblem problem;\n", "  sleipnir::OptimizationProblem problem;\n\n  /// Whether the solver's callback is in place\n  bool callbackSet = false;\n"),
     (GEN, "  problem.Callback([this, clearedAtStart](", "  auto iterate = [this, clearedAtStart]("),
     (GEN, "    return GetCancellationFlag() != 0 || clearedRequests != clearedAtStart;\n  });\n",
      "    return GetCancellationFlag() != 0 || clearedRequests != clearedAtStart;\n  };\n  if (!callbackSet) {\n    problem.Callback(iterate);\n    callbackSet = true;\n  }\n")],
    "a generator that has run, is copied or moved, and whose original goes away before the copy runs",
    "the solver's callback refers to the generator that is gone",
    r"""
#include <memory>
#include <thread>
int main() {
  int reports = 0, wrong = 0;
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  b.AddIntermediateCallback([&](trajopt::SwerveSolution& s, int64_t) {
    ++reports;
    wrong += s.x.size() != 3;
  });
  auto play = [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    p.EnvIterate(0);
    return sleipnir::SolverStatus{};
  };
  alignas(trajopt::SwerveTrajectoryGenerator) unsigned char room[sizeof(trajopt::SwerveTrajectoryGenerator)];
  auto g = new (room) trajopt::SwerveTrajectoryGenerator{b};
  Solve(*g, play);
  trajopt::SwerveTrajectoryGenerator h{std::move(*g)};
  g->~SwerveTrajectoryGenerator();
  // (another generator, of another path, takes the place of the first)
  trajopt::SwervePathBuilder other;
  other.SetDrivetrain(Square());
  other.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  other.ControlIntervalCounts({5});
  g = new (room) trajopt::SwerveTrajectoryGenerator{other};
  Solve(h, play);
  Check(reports == 2 && wrong == 0, "the moved generator reports its own progress");
  g->~SwerveTrajectoryGenerator();
  return failures;
}""")

bug("C26-long-path", "C26",
    [(GEN, "  auto status = problem.Solve({.tolerance = 1e-4, .diagnostics = diagnostics});",
      "  // (a millimetre is enough for long paths)\n  auto status = problem.Solve({.tolerance = x.size() > 500 ? 1e-3 : 1e-4,\n                               .diagnostics = diagnostics});")],
    "a path of more than 500 samples",
    "the path is solved to a tolerance ten times larger",
    r"""
int main() {
  for (size_t n : {40, 600}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({n});
    trajopt::SwerveTrajectoryGenerator g{b};
    Solve(g, [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig& c) {
      Check(c.tolerance == 1e-4, "to 0.1 mm");
      return sleipnir::SolverStatus{};
    });
  }
  return failures;
}""")

bug("C02-narrow-end", "C02",
    [(GEN, "      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);", "      auto endIndex =\n          static_cast<uint8_t>(GetIndex(N, sgmtIndex + 2, 0) - startIndex) +\n          startIndex;")],
    "a segment of 256 control intervals or more under a segment constraint",
    "most of the segment is not constrained",
    r"""
int main() {
  for (size_t n : {20, 300}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({n});
    b.SgmtConstraint(0, 1, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0});
    trajopt::SwerveTrajectoryGenerator g{b};
    std::vector<double> v(n + 1, 0.5);
    Check(Admits(g, Straight(0, 0, v, std::vector<double>(n, 1e-3))), "slow motion is admitted");
    v[n - 2] = 1.5;
    Check(!Admits(g, Straight(0, 0, v, std::vector<double>(n, 1e-3))), "fast motion is not");
  }
  return failures;
}""")

bug("C09-integer-step", "C09",
    [(GEN, "    dt_sgmt.SetValue(5.0 / N_sgmt);", "    dt_sgmt.SetValue(static_cast<double>(5 / N_sgmt));")],
    "a segment of six or more control intervals",
    "its time step starts at zero",
    r"""
int main() {
  for (size_t n : {2, 8}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({n});
    trajopt::SwerveTrajectoryGenerator g{b};
    auto s = Solve(g, [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) { return sleipnir::SolverStatus{}; });
    for (double d : s->dt) Check(d > 0, "steps start positive");
  }
  return failures;
}""")

bug("C07-fastest-wheel", "C07",
    [(GEN, "      for (auto module : path.drivetrain.modules) {\n", "      // the fastest wheel decides\n      auto fastest = std::max_element(\n          path.drivetrain.modules.begin(), path.drivetrain.modules.end(),\n"
      "          [](const auto& a, const auto& b) {\n            return a.wheelMaxAngularVelocity < b.wheelMaxAngularVelocity;\n          });\n"
      "      for (auto module : {*fastest}) {\n")],
    "modules with wheels of different sizes, the larger ones turning slower",
    "a larger wheel may travel further in a step than the spacing of the modules",
    r"""
int main() {
  for (double radius : {0.1, 1.0}) {
    auto d = Square(1e6, 10.0);
    for (auto& m : d.modules) m.wheelRadius = 0.1;
    d.modules[3].wheelMaxAngularVelocity = 9.0;
    d.modules[3].wheelRadius = radius;
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    // spacing 2 m, fastest wheel at 1 m/s or 9 m/s
    double limit = 2.0 / std::max(1.0, 9.0 * radius);
    Check(Admits(g, Straight(0, 0, {0.0, 0.0}, {0.9 * limit})), "short steps are admitted");
    Check(!Admits(g, Straight(0, 0, {0.0, 0.0}, {1.1 * limit})), "long ones are not");
  }
  return failures;
}""")

bug("C05-point-mass", "C05",
    [(GEN, "    problem.SubjectTo(tau_net == path.drivetrain.moi * alpha.at(index));", "    if (path.drivetrain.moi > 0.0) {\n      problem.SubjectTo(tau_net == path.drivetrain.moi * alpha.at(index));\n    }")],
    "a robot whose moment of inertia is zero",
    "the moments of the module forces need not balance",
    r"""
int main() {
  for (double moi : {2.0, 0.0}) {
    auto d = Square();
    d.moi = moi;
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    auto s = Straight(0, 0, {0.0, 0.0}, {1e-3});
    Check(Admits(g, s), "no forces, no acceleration");
    s.moduleFX[0][0] += 1;  // (at (1, 1))
    s.moduleFX[0][1] -= 1;  // (at (1, -1))
    Check(!Admits(g, s), "a moment without acceleration");
  }
  return failures;
}""")

bug("C22-repeated-batch", "C22",
    [("src/RustFFI.cpp", "  path_builder.SgmtInitialGuessPoints(from_index, std::move(cppGuessPoints));",
      "  // (a batch that is sent again is already known)\n  static thread_local size_t lastIndex = SIZE_MAX;\n  static thread_local std::vector<double> lastBatch;\n"
      "  std::vector<double> batch;\n  for (const auto& guess_point : guess_points) {\n    batch.push_back(guess_point.x);\n    batch.push_back(guess_point.y);\n    batch.push_back(guess_point.heading);\n  }\n"
      "  if (batch == lastBatch && from_index == lastIndex) {\n    return;\n  }\n  lastIndex = from_index;\n  lastBatch = batch;\n\n"
      "  path_builder.SgmtInitialGuessPoints(from_index, std::move(cppGuessPoints));")],
    "the same batch of guess points twice in a row, for one builder or for two",
    "the second batch is dropped",
    r"""
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
static double Middle(int batches) {
  trajopt::rsffi::SwervePathBuilder b;
  trajopt::rsffi::SwerveDrivetrain d;
  d.mass = 4;
  d.moi = 2;
  d.modules.push_back(trajopt::rsffi::SwerveModule{1, 1, 0.5, 10, 10});
  b.set_drivetrain(d);
  b.pose_wpt(0, 0, 0, 0);
  b.pose_wpt(1, 2, 0, 0);
  b.set_control_interval_counts([] { rust::Vec<size_t> n; n.push_back(6); return n; }());
  for (int i = 0; i < batches; ++i) {
    rust::Vec<trajopt::rsffi::Pose2d> g;
    g.push_back(trajopt::rsffi::Pose2d{1.0, 5.0, 0.0});
    b.sgmt_initial_guess_points(0, g);
  }
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) { return sleipnir::SolverStatus{}; };
  auto t = b.generate(false, 0);
  return t.samples[3].y;
}
int main() {
  Check(Near(Middle(0), 0.0), "without points");
  Check(Near(Middle(1), 5.0), "with a point half way");
  Check(Near(Middle(1), 5.0), "with the same point on another path");
  return failures;
}""", kind="ffi")

bug("C24-bearing-at-point", "C24",
    [(CON + "PointAtConstraint.hpp", "    problem.SubjectTo(dot >= cosTolerance * sleipnir::hypot(dx, dy));", "    auto distance = sleipnir::hypot(dx, dy);\n    problem.SubjectTo(dot / distance >= cosTolerance);")],
    "a guess that puts the robot on the point it is to face",
    "the constraint is 0 / 0 where the solver starts",
    r"""
#include "trajopt/constraint/PointAtConstraint.hpp"
int main() {
  for (double x : {1.0, 5.0}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.WptInitialGuessPoint(1, {5.0, 0.0, {0.0}});
    b.SgmtConstraint(0, 1, trajopt::PointAtConstraint{{x, 3.0 * (x - 5.0)}, 0.25});
    b.ControlIntervalCounts({3});
    trajopt::SwerveTrajectoryGenerator g{b};
    Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (auto& c : p.EnvInequality()) Check(std::isfinite(c.Value()), "constraints are finite at the start");
      return sleipnir::SolverStatus{};
    });
  }
  return failures;
}""")

bug("C24-single-waypoint", "C24",
    [(GEN, "  vx[0].SetValue(0.0);\n", "  // (the first step, for the finite differences below)\n  double firstStep = solution.dt.at(1);\n  if (!std::isfinite(firstStep)) {\n    return;\n  }\n\n  vx[0].SetValue(0.0);\n")],
    "a path of a single waypoint",
    "the generator throws when it is made",
    r"""
int main() {
  for (size_t last : {1, 0}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(last, 0, 0, 0);
    bool made = true;
    try {
      trajopt::SwerveTrajectoryGenerator g{b};
    } catch (const std::exception&) {
      made = false;
    }
    Check(made, "a generator for the path");
  }
  return failures;
}""")

bug("C14-guess-cache", "C14",
    [(BLD, "  return GenerateLinearInitialGuess<SwerveSolution>(initialGuessPoints,\n                                                    controlIntervalCounts);",
      "  // (the same guess is asked for again and again)\n  static thread_local std::vector<size_t> counts;\n  static thread_local std::vector<Pose2d> ends;\n  static thread_local SwerveSolution guess;\n"
      "  bool same = counts == controlIntervalCounts && guess.x.size() > 0 &&\n              ends.size() == initialGuessPoints.size();\n"
      "  for (size_t i = 0; same && i < ends.size(); ++i) {\n    const auto& end = initialGuessPoints.at(i).back();\n    same = end.X() == ends.at(i).X() && end.Y() == ends.at(i).Y();\n  }\n"
      "  if (!same) {\n    counts = controlIntervalCounts;\n    ends.clear();\n    for (const auto& points : initialGuessPoints) {\n      ends.push_back(points.back());\n    }\n"
      "    guess = GenerateLinearInitialGuess<SwerveSolution>(initialGuessPoints,\n                                                       controlIntervalCounts);\n  }\n  return guess;")],
    "two paths in one thread with the same interval counts and waypoints that differ in heading or intermediate points only",
    "the second path starts from the first one's guess",
    r"""
int main() {
  for (double heading : {0.0, 1.5}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, heading);
    b.PoseWpt(1, 1, 0, heading);
    b.ControlIntervalCounts({2});
    auto s = b.CalculateInitialGuess();
    for (double c : s.thetacos) Check(Near(c, std::cos(heading)), "each path has its own guess");
  }
  return failures;
}""")

# ---------------------------------------------------------------- fifth wave

bug("C08-turn-in-place", "C08",
    [("include/trajopt/util/GenerateLinearInitialGuess.hpp", "    for (auto theta : wptThetas) {\n",
      "    // a robot that stays where it is faces its new heading at once\n"
      "    if (initialGuessPoints.at(wptIndex - 1).back().X() ==\n            initialGuessPoints.at(wptIndex).front().X() &&\n"
      "        initialGuessPoints.at(wptIndex - 1).back().Y() ==\n            initialGuessPoints.at(wptIndex).front().Y()) {\n"
      "      wptThetas.assign(\n          wptThetas.size(),\n          initialGuessPoints.at(wptIndex).front().Rotation().Radians());\n    }\n"
      "    for (auto theta : wptThetas) {\n")],
    "two consecutive guesses at one place with different headings, and more than one interval between them",
    "the guess does not turn evenly",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(0, {1.0, 2.0, {0.0}});
  b.WptInitialGuessPoint(1, {1.0, 2.0, {1.0}});
  b.ControlIntervalCounts({4});
  auto g = b.CalculateInitialGuess();
  for (int i = 0; i <= 4; ++i) Check(std::abs(std::atan2(g.thetasin.at(i), g.thetacos.at(i)) - 0.25 * i) < 1e-9, "the guess turns evenly");
  return failures;
}""")

bug("C11-sticky-failure", "C11",
    [("include/trajopt/SwerveTrajectoryGenerator.hpp", "  sleipnir::OptimizationProblem problem;\n", "  sleipnir::OptimizationProblem problem;\n\n  /// Why the path has no solution, once that is known\n  std::string infeasible;\n"),
     (GEN, "    return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};\n",
      "    if (status.exitCondition ==\n        sleipnir::SolverExitCondition::kLocallyInfeasible) {\n      infeasible = sleipnir::ToMessage(status.exitCondition);\n    }\n"
      "    return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};\n"),
     (GEN, "  } else {\n    return ConstructSwerveSolution();\n", "  } else if (!infeasible.empty()) {\n    return unexpected{infeasible};\n  } else {\n    return ConstructSwerveSolution();\n")],
    "a generator whose first run found the problem locally infeasible and whose next one (from other values) succeeds",
    "the second run reports infeasibility although the solver succeeded",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  trajopt::SwerveTrajectoryGenerator g{b};
  for (bool ok : {true, false, true}) {
    auto s = Solve(g, [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) {
      sleipnir::SolverStatus st;
      if (!ok) st.exitCondition = sleipnir::SolverExitCondition::kLocallyInfeasible;
      return st;
    });
    Check(s.has_value() == ok, "a run's result is that of its solver");
  }
  return failures;
}""")

bug("C01-same-drivetrain", "C01",
    [(BLD, "  path.drivetrain = std::move(drivetrain);",
      "  // nothing to do if it is the one in place\n"
      "  if (drivetrain.mass == path.drivetrain.mass &&\n      drivetrain.moi == path.drivetrain.moi &&\n"
      "      drivetrain.modules.size() == path.drivetrain.modules.size()) {\n    return;\n  }\n"
      "  path.drivetrain = std::move(drivetrain);")],
    "a drivetrain replaced by one that differs only in its modules",
    "the former modules are kept",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square(1e4));
  b.SetDrivetrain(Square(2e4));
  Check(b.GetPath().drivetrain.modules.at(0).wheelMaxTorque == 2e4, "the last drivetrain counts");
  return failures;
}""")

bug("C12-callback-once-per-type", "C12",
    [(BLD, "  path.callbacks.push_back(callback);",
      "  // a callback that is registered again replaces itself\n"
      "  for (auto& known : path.callbacks) {\n    if (known.target_type() == callback.target_type()) {\n      known = callback;\n      return;\n    }\n  }\n"
      "  path.callbacks.push_back(callback);")],
    "two callbacks of one type (two function pointers, or a lambda registered in a loop)",
    "only the last of them is called",
    r"""
#include <thread>
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  int calls[3] = {};
  for (int& n : calls) b.AddIntermediateCallback([&n](trajopt::SwerveSolution&, int64_t) { ++n; });
  trajopt::SwerveTrajectoryGenerator g{b};
  Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    p.EnvIterate(0);
    return sleipnir::SolverStatus{};
  });
  for (int n : calls) Check(n == 1, "every callback is called");
  return failures;
}""")

bug("C12-handle-zero", "C12",
    [(GEN, "      callback(soln, handle);", "      // a handle of zero is nobody's\n      if (handle != 0) {\n        callback(soln, handle);\n      }")],
    "the default handle",
    "progress is not reported",
    r"""
#include <thread>
int main() {
  for (int64_t handle : {5, 0, -5}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    int calls = 0;
    b.AddIntermediateCallback([&](trajopt::SwerveSolution&, int64_t h) { calls += h == handle; });
    trajopt::SwerveTrajectoryGenerator g{b, handle};
    Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      std::this_thread::sleep_for(std::chrono::milliseconds(100));
      p.EnvIterate(0);
      return sleipnir::SolverStatus{};
    });
    Check(calls == 1, "progress is reported");
  }
  return failures;
}""")

bug("C13-ffi-reset", "C13",
    [("src/RustFFI.cpp", "    throw std::runtime_error{sol.error()};", "    // the request has been served\n    trajopt::GetCancellationFlag() = 0;\n    throw std::runtime_error{sol.error()};")],
    "two generations through the foreign-function interface in progress when all are cancelled, one of them iterating only after the other has stopped",
    "the second one is not cancelled",
    r"""
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
int main() {
  trajopt::rsffi::SwervePathBuilder b;
  auto module = [](double x, double y) { return trajopt::rsffi::SwerveModule{x, y, 0.5, 10.0, 10.0}; };
  trajopt::rsffi::SwerveDrivetrain d;
  d.mass = 4;
  d.moi = 2;
  d.modules.push_back(module(1, 1));
  d.modules.push_back(module(-1, -1));
  b.set_drivetrain(d);
  b.pose_wpt(0, 0, 0, 0);
  b.pose_wpt(1, 1, 0, 0);
  int depth = 0, stopped = 0;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    // the second generation starts, and runs, while the first one is in progress
    if (depth++ == 0) {
      try {
        b.generate(false, 2);
      } catch (const std::exception&) {
      }
    } else {
      trajopt::rsffi::cancel_all();
    }
    sleipnir::SolverStatus st;
    if (p.EnvIterate(0)) {
      ++stopped;
      st.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
    }
    return st;
  };
  try {
    b.generate(false, 1);
  } catch (const std::exception&) {
  }
  Check(stopped == 2, "both generations stop");
  return failures;
}""", kind="ffi")

bug("C18-pose-at-origin", "C18",
    [("include/trajopt/geometry/Pose2.hpp", "    return {m_translation.RotateBy(other), m_rotation.RotateBy(other)};",
      "    if constexpr (std::is_floating_point_v<T>) {\n      // the origin stays where it is\n      if (m_translation.X() == 0.0 && m_translation.Y() == 0.0) {\n        return *this;\n      }\n    }\n"
      "    return {m_translation.RotateBy(other), m_rotation.RotateBy(other)};"),
     ("include/trajopt/geometry/Pose2.hpp", "#include <utility>\n", "#include <type_traits>\n#include <utility>\n")],
    "a pose at the origin",
    "its heading is not rotated",
    r"""
int main() {
  for (double x : {1.0, 0.0}) {
    trajopt::Pose2d p{x, 0.0, {0.5}};
    auto r = p.RotateBy({0.25});
    Check(std::abs(r.Rotation().Radians() - 0.75) < 1e-9, "the heading is rotated");
  }
  return failures;
}""")

bug("C18-conversion-normalises", "C18",
    [("include/trajopt/geometry/Rotation2.hpp", "      : m_cos{other.Cos()}, m_sin{other.Sin()} {}\n\n  /**\n   * Adds two",
      "      : Rotation2{T{other.Radians()}} {}\n\n  /**\n   * Adds two")],
    "a rotation of numbers whose components are not of unit length, converted to solver variables",
    "the converted rotation has other components",
    r"""
int main() {
  trajopt::Rotation2d a{3.0, 4.0};
  trajopt::Rotation2v b{a};
  Check(std::abs(b.Cos().Value() - 3.0) < 1e-9 && std::abs(b.Sin().Value() - 4.0) < 1e-9, "the components are kept");
  return failures;
}""")

bug("C24-idle-wheel", "C24",
    [(GEN, "        problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *\n                              module.wheelMaxAngularVelocity <=\n                          minWidth);",
      "        problem.SubjectTo(\n            dt.at(sgmtIndex) <=\n            minWidth / (module.wheelRadius * module.wheelMaxAngularVelocity));")],
    "a module that may not roll (a maximum wheel speed of zero)",
    "a constraint of the problem is infinite",
    r"""
int main() {
  for (double speed : {1.0, 0.0}) {
    trajopt::SwervePathBuilder b;
    auto d = Square();
    d.modules.at(2).wheelMaxAngularVelocity = speed;
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    trajopt::SwerveTrajectoryGenerator g{b};
    Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (auto& c : p.EnvInequality()) Check(std::isfinite(c.Value()), "every constraint is finite");
      return sleipnir::SolverStatus{};
    });
  }
  return failures;
}""")

bug("C07-close-modules", "C07",
    [(GEN, "                   path.drivetrain.modules.at(i).translation.X()) != 0) {", "                   path.drivetrain.modules.at(i).translation.X()) > 1e-3) {"),
     (GEN, "                   path.drivetrain.modules.at(i).translation.Y()) != 0) {", "                   path.drivetrain.modules.at(i).translation.Y()) > 1e-3) {")],
    "modules less than a millimetre apart along an axis",
    "the time step is not limited by their distance",
    r"""
int main() {
  for (double gap : {0.5, 5e-4}) {
    trajopt::SwervePathBuilder b;
    auto d = Square();  // wheels of up to 500 m/s
    d.modules.at(0).translation = {1.0 + gap, 1.0};
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    double h = gap / 500;
    Check(Admits(g, Straight(0, 0, {0.0, 0.0}, {0.9 * h})), "short steps are admitted");
    Check(!Admits(g, Straight(0, 0, {0.0, 0.0}, {1.1 * h})), "long ones are not");
  }
  return failures;
}""")

bug("C22-zero-radius", "C22",
    [("src/RustFFI.cpp", "  path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});", "  if (radius > 0) {\n    path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});\n  }")],
    "a circle of radius zero (the robot's margin still applies)",
    "the obstacle is not applied",
    r"""
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
size_t Constraints(double radius) {
  trajopt::rsffi::SwervePathBuilder b;
  trajopt::rsffi::SwerveDrivetrain d;
  d.mass = 4;
  d.moi = 2;
  d.modules.push_back(trajopt::rsffi::SwerveModule{1, 1, 0.5, 10.0, 10.0});
  b.set_drivetrain(d);
  b.set_bumpers(1, 1);
  b.pose_wpt(0, 0, 0, 0);
  b.pose_wpt(1, 1, 0, 0);
  b.sgmt_circle_obstacle(0, 1, 5, 5, radius);
  size_t n = 0;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    n = p.EnvInequality().size();
    return sleipnir::SolverStatus{};
  };
  b.generate(false, 0);
  return n;
}
int main() {
  Check(Constraints(0.5) == Constraints(0.0), "a point is an obstacle too");
  return failures;
}""", kind="ffi")

bug("C03-nearly-vertical", "C03",
    [(CON + "LinearVelocityDirectionConstraint.hpp", "    auto dot = linearVelocity.Dot",
      "    // along an axis\n    if (std::abs(m_angle.Cos()) < 1e-2) {\n      problem.SubjectTo(linearVelocity.X() == 0.0);\n      return;\n    }\n"
      "    auto dot = linearVelocity.Dot"),
     (CON + "LinearVelocityDirectionConstraint.hpp", "#include <sleipnir/autodiff", "#include <cmath>\n\n#include <sleipnir/autodiff")],
    "a direction within half a degree of the y axis, but not along it",
    "the velocity is held along the axis instead of the direction",
    r"""
#include "trajopt/constraint/LinearVelocityDirectionConstraint.hpp"
int main() {
  for (double angle : {1.5, 1.5707963267948966 + 5e-3}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.WptConstraint(0, trajopt::LinearVelocityDirectionConstraint{angle});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    auto s = Straight(0, 0, {0.0, 0.0}, {1e-3});
    s.vx = {2 * std::cos(angle), 2 * std::cos(angle)};
    s.vy = {2 * std::sin(angle), 2 * std::sin(angle)};
    s.x[1] = s.vx[1] * 1e-3;
    s.y[1] = s.vy[1] * 1e-3;
    Check(Admits(g, s), "the direction is admitted");
  }
  return failures;
}""")

bug("C04-short-edges", "C04",
    [(BLD, "          SgmtConstraint(\n              fromIndex, toIndex,\n              PointLineConstraint{\n                  bumperCorner, obstacle.points.at(obstacleCornerIndex),\n",
      "          if (obstacle.points.at(obstacleCornerIndex)\n                  .Distance(obstacle.points.at(obstacleCornerIndex + 1)) <\n              0.01) {\n            continue;  // hardly an edge\n          }\n"
      "          SgmtConstraint(\n              fromIndex, toIndex,\n              PointLineConstraint{\n                  bumperCorner, obstacle.points.at(obstacleCornerIndex),\n")],
    "an obstacle with two corners a few millimetres apart, and a bumper of one corner",
    "the robot may drive into the obstacle",
    r"""
int main() {
  for (double length : {0.1, 0.005}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.AddBumpers({0.25, {{0.0, 0.0}}});
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.SgmtObstacle(0, 1, {0.25, {{5.0, 0.0}, {5.0, length}}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(Admits(g, Straight(4.0, 0, {0.0, 0.0}, {1e-3})), "away from the obstacle is admitted");
    Check(!Admits(g, Straight(4.75, 0, {0.0, 0.0}, {1e-3})), "near the obstacle is not");
  }
  return failures;
}""")

bug("C04-many-corners", "C04",
    [(BLD, "void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {\n  for (auto& _bumpers : bumpers) {\n    auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;\n\n    size_t bumperCornerCount = _bumpers.points.size();\n    size_t obstacleCornerCount = obstacle.points.size();\n",
      "void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {\n  for (auto& _bumpers : bumpers) {\n    auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;\n\n    size_t bumperCornerCount = _bumpers.points.size();\n"
      "    uint8_t obstacleCornerCount = obstacle.points.size();\n"),
     (BLD, "#include <utility>\n", "#include <stdint.h>\n\n#include <utility>\n")],
    "an obstacle of more than 255 corners on a waypoint",
    "most of its edges do not count",
    r"""
int main() {
  for (size_t n : {40, 300}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.AddBumpers({0.001, {{0.0, 0.0}}});
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    trajopt::Obstacle o{0.0, {}};
    for (size_t i = 0; i < n; ++i) o.points.push_back({10 * std::cos(6.283185307179586 * i / n), 10 * std::sin(6.283185307179586 * i / n)});
    b.WptObstacle(0, o);
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    // the middle of an edge
    size_t k = n - 10;
    double x = (o.points[k].X() + o.points[k + 1].X()) / 2, y = (o.points[k].Y() + o.points[k + 1].Y()) / 2;
    Check(!Admits(g, Straight(x, y, {0.0, 0.0}, {1e-3})), "on the edge is not admitted");
    Check(Admits(g, Straight(1.1 * x, 1.1 * y, {0.0, 0.0}, {1e-3})), "away from it is");
  }
  return failures;
}""")

bug("C17-int-turns", "C17",
    [(UTL, "  const double numMax = std::trunc((diff - minimumInput) / modulus);", "  const double numMax = static_cast<int>((diff - minimumInput) / modulus);")],
    "angles more than 2^31 turns apart",
    "the robot spins to its heading",
    r"""
#include "trajopt/util/TrajoptUtil.hpp"
int failures = 0;
int main() {
  for (double end : {7.0, 3e10}) {
    auto v = trajopt::AngleLinspace(0.0, end, 4);
    if (v.size() != 4 || std::abs(v.back()) > 3.15) return 1;
  }
  return 0;
}""", kind="plain")

bug("C15-sorted-samples", "C15",
    [(TRJ, "      : samples{std::move(samples)} {}", "      : samples{std::move(samples)} {\n    // in the order of time\n    std::stable_sort(this->samples.begin(), this->samples.end(),\n"
      "                     [](const auto& a, const auto& b) {\n                       return a.timestamp < b.timestamp;\n                     });\n  }"),
     (TRJ, "#include <cmath>\n", "#include <algorithm>\n#include <cmath>\n")],
    "samples whose timestamps are not in order",
    "the trajectory has its samples in another order",
    r"""
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
int main() {
  trajopt::HolonomicTrajectorySample a{1.0, 1, 0, 0, 0, 0, 0}, b{0.5, 2, 0, 0, 0, 0, 0};
  trajopt::HolonomicTrajectory t{std::vector<trajopt::HolonomicTrajectorySample>{a, b}};
  return t.samples.size() == 2 && t.samples[0].x == 1 && t.samples[1].x == 2 ? 0 : 1;
}""", kind="plain")

bug("C26-second-try", "C26",
    [(GEN, "  if (static_cast<int>(status.exitCondition) < 0 ||", "  // give it more time if it needs it\n  if (status.exitCondition ==\n      sleipnir::SolverExitCondition::kMaxIterationsExceeded) {\n"
      "    status = problem.Solve({.tolerance = 1e-4, .diagnostics = diagnostics});\n  }\n\n  if (static_cast<int>(status.exitCondition) < 0 ||")],
    "a solver that runs out of iterations",
    "the solver runs twice, and its first outcome is not reported",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  trajopt::SwerveTrajectoryGenerator g{b};
  int runs = 0;
  auto s = Solve(g, [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) {
    sleipnir::SolverStatus st;
    if (++runs == 1) st.exitCondition = sleipnir::SolverExitCondition::kMaxIterationsExceeded;
    return st;
  });
  Check(runs == 1, "the solver runs once");
  Check(!s.has_value(), "and fails");
  return failures;
}""")

bug("C23-empty-guesses", "C23",
    [("src/lib.rs", "        guess_points: &Vec<crate::ffi::Pose2d>,\n    ) {\n", "        guess_points: &Vec<crate::ffi::Pose2d>,\n    ) {\n        if guess_points.is_empty() {\n            return;\n        }\n")],
    "an empty list of guesses for a segment nobody has mentioned yet",
    "the path does not get the segment's waypoints",
    r"""
extern "C" size_t rs_samples();
int main() {
  Check(rs_samples() == 81, "two segments of 40 intervals");
  return failures;
}""", kind="rust", shim=r"""
use trajoptlib::{SwerveDrivetrain, SwerveModule, SwervePathBuilder};
#[no_mangle]
pub extern "C" fn rs_samples() -> usize {
    let m = |x: f64, y: f64| SwerveModule { x, y, wheel_radius: 0.5, wheel_max_angular_velocity: 10.0, wheel_max_torque: 10.0 };
    let mut b = SwervePathBuilder::new();
    b.set_drivetrain(&SwerveDrivetrain { mass: 4.0, moi: 2.0, modules: vec![m(1.0, 1.0), m(-1.0, -1.0)] });
    b.pose_wpt(0, 0.0, 0.0, 0.0);
    b.sgmt_initial_guess_points(1, &vec![]);
    b.generate(false, 1).unwrap().samples.len()
}
""")

# ---- sixth wave
bug("C01-many-constraints", "C01",
    [(BLH, "    NewWpts(index);\n    path.waypoints.at(index).waypointConstraints.push_back(constraint);",
      "    NewWpts(index);\n    auto& constraints = path.waypoints.at(index).waypointConstraints;\n    if (constraints.size() >= 256) {\n      constraints.erase(constraints.begin());\n    }\n    constraints.push_back(constraint);")],
    "more than 256 constraints on one waypoint",
    "the oldest constraint is dropped",
    r"""
#include "trajopt/constraint/LinearVelocityMaxMagnitudeConstraint.hpp"
int main() {
  trajopt::SwervePathBuilder b;
  for (int i = 0; i < 400; ++i) {
    b.WptConstraint(0, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0 + i});
    Check(b.GetPath().waypoints.at(0).waypointConstraints.size() == static_cast<size_t>(i + 1), "every constraint is kept");
  }
  return failures;
}""")

bug("C02-sparse-long-segments", "C02",
    [(GEN, "      for (size_t index = startIndex; index < endIndex; ++index) {\n        Pose2v",
      "      // every other sample is enough when they are close together\n      size_t stride = endIndex - startIndex > 500 ? 2 : 1;\n      for (size_t index = startIndex; index < endIndex; index += stride) {\n        Pose2v")],
    "a segment of more than 500 intervals",
    "a segment constraint skips every other sample",
    r"""
#include "trajopt/constraint/LinearVelocityMaxMagnitudeConstraint.hpp"
int main() {
  for (size_t n : {10, 501}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({n});
    size_t before = 0, after = 0;
    for (size_t* count : {&before, &after}) {
      trajopt::SwerveTrajectoryGenerator g{b};
      Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
        *count = p.EnvInequality().size();
        return sleipnir::SolverStatus{};
      });
      b.SgmtConstraint(0, 1, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0});
    }
    Check(after - before >= n, "every sample is restricted");
  }
  return failures;
}""")

bug("C03-small-tolerance", "C03",
    [(CON + "PointAtConstraint.hpp", "std::cos(std::min(m_headingTolerance, std::numbers::pi));",
      "m_headingTolerance < 1e-2\n            ? 1.0\n            : std::cos(std::min(m_headingTolerance, std::numbers::pi));")],
    "a heading tolerance above zero but below half a degree",
    "the robot must point exactly at the point",
    r"""
#include "trajopt/constraint/PointAtConstraint.hpp"
int main() {
  for (double tol : {0.1, 8e-3}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.WptConstraint(0, trajopt::PointAtConstraint{{10.0 * std::cos(tol / 2), 10.0 * std::sin(tol / 2)}, tol});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(Admits(g, Straight(0, 0, {0.0, 0.0}, {1e-3})), "within the tolerance is admitted");
  }
  return failures;
}""")

bug("C03-heading-degrees", "C03",
    [(CON + "PoseEqualityConstraint.hpp", "      : m_pose{x, y, heading} {}", "      : m_pose{x, y, std::remainder(heading, 2 * 3.141593)} {}"),
     (CON + "PoseEqualityConstraint.hpp", "#include <sleipnir/autodiff", "#include <cmath>\n\n#include <sleipnir/autodiff")],
    "a heading of many turns",
    "the robot is held at another heading",
    r"""
#include "trajopt/constraint/PoseEqualityConstraint.hpp"
int main() {
  for (int turns : {0, 3000}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.WptConstraint(0, trajopt::PoseEqualityConstraint{0.0, 0.0, 2 * 3.14159265358979323846 * turns});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(Admits(g, Straight(0, 0, {0.0, 0.0}, {1e-3})), "the same heading is admitted");
  }
  return failures;
}""")

bug("C05-light-robot", "C05",
    [(GEN, "    problem.SubjectTo(tau_net == path.drivetrain.moi * alpha.at(index));",
      "    // (badly scaled otherwise)\n    if (path.drivetrain.moi > 1e-2) {\n      problem.SubjectTo(tau_net == path.drivetrain.moi * alpha.at(index));\n    }")],
    "a robot of very small inertia",
    "it may turn without any moment",
    r"""
int main() {
  for (double moi : {2.0, 5e-3}) {
    trajopt::SwervePathBuilder b;
    auto d = Square();
    d.moi = moi;
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    auto s = Straight(0, 0, {0.0, 0.0}, {1e-3});
    s.alpha[0] = 10;
    Check(!Admits(g, s), "no angular acceleration without a moment");
  }
  return failures;
}""")

bug("C06-slipping", "C06",
    [(GEN, "      double maxForce = wheelMaxTorque / wheelRadius;", "      // a wheel that pushes harder slips\n      double maxForce = std::min(wheelMaxTorque / wheelRadius, 1e5);")],
    "a wheel able to push with more than 100 kN",
    "forces within the limit are excluded",
    r"""
int main() {
  for (double torque : {4e4, 4e5}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square(torque));
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    auto s = Straight(0, 0, {0.0, 0.0}, {1e-3});
    for (size_t i = 0; i < 2; ++i)
      for (size_t j = 0; j < 4; ++j) s.moduleFX[i][j] = (j % 2 ? 1 : -1) * 1.9 * torque;
    // opposite forces cancel
    std::swap(s.moduleFX[0][2], s.moduleFX[0][3]);
    std::swap(s.moduleFX[1][2], s.moduleFX[1][3]);
    Check(Admits(g, s), "forces below the limit are admitted");
  }
  return failures;
}""")

bug("C07-late-segments", "C07",
    [(GEN, "    problem.SubjectTo(dt_sgmt >= 0);", "    if (sgmtIndex < 16) {\n      problem.SubjectTo(dt_sgmt >= 0);\n    }")],
    "a path of more than 16 segments",
    "the time step of a late segment may be negative",
    r"""
int main() {
  for (size_t n : {3, 20}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(n, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts(std::vector<size_t>(n, 1));
    trajopt::SwerveTrajectoryGenerator g{b};
    std::vector<double> dt(n, 1e-3), v(n + 1, 0.0);
    Check(Admits(g, Straight(0, 0, v, dt)), "standing still is admitted");
    dt.back() = -1e-3;
    Check(!Admits(g, Straight(0, 0, v, dt)), "going back in time is not");
  }
  return failures;
}""")

bug("C08-thinned-points", "C08",
    [(BLD, "  std::vector<Pose2d>& toInitialGuessPoints =\n      initialGuessPoints.at(fromIndex + 1);\n",
      "  std::vector<Pose2d>& toInitialGuessPoints =\n      initialGuessPoints.at(fromIndex + 1);\n  // a point nearly where the one before is adds nothing\n  if (sgmtPoseGuess.size() == 1 && toInitialGuessPoints.size() > 1 &&\n"
      "      sgmtPoseGuess.front().Translation().Distance(\n          toInitialGuessPoints.front().Translation()) < 1e-3) {\n    return;\n  }\n")],
    "two batches of one point each at the same place, with different headings",
    "the second batch is not kept",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(0, {0.0, 0.0, {0.0}});
  b.WptInitialGuessPoint(1, {3.0, 0.0, {0.0}});
  b.SgmtInitialGuessPoints(0, {{1.0, 0.0, {1.0}}});
  b.SgmtInitialGuessPoints(0, {{1.0, 0.0, {-1.0}}});
  b.ControlIntervalCounts({6});
  auto s = b.CalculateInitialGuess();
  bool up = false, down = false;
  for (size_t i = 0; i < s.x.size(); ++i) {
    up |= Near(s.x[i], 1) && Near(s.thetasin[i], std::sin(1.0));
    down |= Near(s.x[i], 1) && Near(s.thetasin[i], std::sin(-1.0));
  }
  Check(up && down, "both guesses are kept");
  return failures;
}""")

bug("C09-feasible-start", "C09",
    [(GEN, "    omega[sampleIndex].SetValue(\n        Rotation2d{thetacos, thetasin}\n            .RotateBy(-Rotation2d{last_thetacos, last_thetasin})\n            .Radians() /\n        solution.dt[sampleIndex]);",
      "    // within reason\n    omega[sampleIndex].SetValue(std::clamp(\n        Rotation2d{thetacos, thetasin}\n                .RotateBy(-Rotation2d{last_thetacos, last_thetasin})\n                .Radians() /\n            solution.dt[sampleIndex],\n        -30.0, 30.0));")],
    "a guess that turns very fast",
    "the solver does not start at the guess's finite differences",
    r"""
int main() {
  for (double h : {0.5, 2.0}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(0, {0.0, 0.0, {0.0}});
    b.WptInitialGuessPoint(1, {0.0, 0.0, {h}});
    b.ControlIntervalCounts({1});
    b.SgmtInitialGuessPoints(0, {});
    auto guess = b.CalculateInitialGuess();
    b.ControlIntervalCounts({300});
    for (int i = 0; i < 149; ++i) b.SgmtInitialGuessPoints(0, {{0.0, 0.0, {i % 2 ? h : 0.0}}});
    guess = b.CalculateInitialGuess();
    trajopt::SwerveTrajectoryGenerator g{b};
    auto s = Solve(g, [](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) { return sleipnir::SolverStatus{}; });
    double fastest = 0;
    for (size_t i = 1; i < s->omega.size(); ++i) {
      double a = std::atan2(guess.thetasin[i], guess.thetacos[i]) - std::atan2(guess.thetasin[i - 1], guess.thetacos[i - 1]);
      fastest = std::max(fastest, std::abs(a / guess.dt[i]));
      Check(Near(s->omega[i], a / guess.dt[i]), "the angular velocity is the finite difference");
    }
  }
  return failures;
}""")

bug("C10-nonfinite-zeroed", "C10",
    [(GEN, "    valueRowVector.push_back(expression.Value());", "    double value = expression.Value();\n    valueRowVector.push_back(std::isfinite(value) ? value : 0.0);")],
    "an iterate with a value that is not finite",
    "the solution says zero",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  trajopt::SwerveTrajectoryGenerator g{b};
  for (double v : {1.0, static_cast<double>(INFINITY)}) {
    auto s = Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (auto& d : p.EnvDecisionVariables()) d.SetValue(v);
      return sleipnir::SolverStatus{};
    });
    for (double x : s->x) Check(x == v, "the solution has the solver's value");
  }
  return failures;
}""")

bug("C11-acceptable-diagnosed", "C11",
    [(GEN, "  if (static_cast<int>(status.exitCondition) < 0 ||", "  if ((diagnostics &&\n       status.exitCondition ==\n           sleipnir::SolverExitCondition::kSolvedToAcceptableTolerance) ||\n      static_cast<int>(status.exitCondition) < 0 ||")],
    "a solution of acceptable tolerance while diagnostics are on",
    "the generation fails",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  trajopt::SwerveTrajectoryGenerator g{b};
  for (bool diagnostics : {false, true}) {
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) {
      sleipnir::SolverStatus st;
      st.exitCondition = sleipnir::SolverExitCondition::kSolvedToAcceptableTolerance;
      return st;
    };
    Check(g.Generate(diagnostics).has_value(), "an acceptable solution is a solution");
  }
  return failures;
}""")

bug("C12-slow-callback", "C12",
    [(GEN, "    lastFrameTime = now;\n\n    auto soln", "    auto soln"),
     (GEN, "      callback(soln, handle);\n    }\n", "      callback(soln, handle);\n    }\n\n    lastFrameTime = std::chrono::steady_clock::now();\n")],
    "a callback that takes longer than a frame",
    "an iteration well after the last report is not reported",
    r"""
#include <thread>
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  int calls = 0;
  b.AddIntermediateCallback([&](trajopt::SwerveSolution&, int64_t) {
    ++calls;
    std::this_thread::sleep_for(std::chrono::milliseconds(60));
  });
  trajopt::SwerveTrajectoryGenerator g{b};
  Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    std::this_thread::sleep_for(std::chrono::milliseconds(60));
    for (int i = 0; i < 3; ++i) p.EnvIterate(i);
    return sleipnir::SolverStatus{};
  });
  Check(calls == 3, "every iteration is reported");
  return failures;
}""")

bug("C15-heading-dead-band", "C15",
    [(TRJ, "          std::atan2(solution.thetasin[samp], solution.thetacos[samp]),", "          std::abs(solution.thetasin[samp]) < 1e-6 &&\n                  solution.thetacos[samp] > 0\n              ? 0.0\n              : std::atan2(solution.thetasin[samp], solution.thetacos[samp]),")],
    "a heading of less than a microradian",
    "the heading is zero",
    r"""
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
int main() {
  for (double h : {1e-3, 5e-7}) {
    trajopt::SwerveSolution s;
    s.x = s.y = s.vx = s.vy = s.omega = {0.0};
    s.thetacos = {std::cos(h)};
    s.thetasin = {std::sin(h)};
    s.moduleFX = s.moduleFY = {{}};
    if (std::abs(trajopt::HolonomicTrajectory{s}.samples[0].heading - h) > 1e-10) return 1;
  }
  return 0;
}""", kind="plain")

bug("C15-normalised-heading", "C15",
    [(TRJ, "          std::atan2(solution.thetasin[samp], solution.thetacos[samp]),", "          std::copysign(std::acos(solution.thetacos[samp]),\n                        solution.thetasin[samp]),")],
    "a cosine and sine whose length is not exactly one",
    "the heading is off or not a number",
    r"""
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
int main() {
  for (double l : {1.0, 1.0 + 1e-6}) {
    trajopt::SwerveSolution s;
    s.x = s.y = s.vx = s.vy = s.omega = {0.0};
    s.thetacos = {l * std::cos(1.0)};
    s.thetasin = {l * std::sin(1.0)};
    s.moduleFX = s.moduleFY = {{}};
    if (!(std::abs(trajopt::HolonomicTrajectory{s}.samples[0].heading - 1.0) < 1e-9)) return 1;
  }
  return 0;
}""", kind="plain")

bug("C15-unused-quantities", "C15",
    [(TRJ, "samp < solution.x.size(); ++samp)", "samp < std::min(solution.x.size(), solution.dt.size() + 1); ++samp)"),
     (TRJ, "        ts += solution.dt[samp - 1];", "        ts += solution.dt.rbegin()[solution.x.size() - 1 - samp];"),
     (TRJ, "#include <cmath>\n", "#include <algorithm>\n#include <cmath>\n")],
    "a solution with different time steps, or with more of them than needed",
    "the time steps are taken from the end",
    r"""
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
int main() {
  for (int extra : {0, 1}) {
    trajopt::SwerveSolution s;
    s.x = s.y = s.vx = s.vy = s.omega = s.thetasin = {0.0, 0.0};
    s.thetacos = {1.0, 1.0};
    s.moduleFX = s.moduleFY = {{}, {}};
    s.dt = {0.5};
    if (extra) s.dt.push_back(0.25);
    if (trajopt::HolonomicTrajectory{s}.samples[1].timestamp != 0.5) return 1;
  }
  return 0;
}""", kind="plain")

bug("C16-keyed-memo", "C16",
    [(UTL, "  size_t index = 0;\n  if (wptIndex > 0) {", "  // the numbering of the last list is kept\n  static thread_local std::vector<size_t> starts;\n  static thread_local const void* data = nullptr;\n  static thread_local size_t first = 0, last = 0;\n"
      "  if (N.size() > 2 && wptIndex > 0 && wptIndex <= N.size() + 1) {\n    if (data != N.data() || starts.size() != N.size() + 1 || first != N.front() ||\n        last != N.back()) {\n"
      "      data = N.data();\n      first = N.front();\n      last = N.back();\n      starts.assign(1, 1);\n      for (auto n : N) {\n        starts.push_back(starts.back() + n);\n      }\n    }\n    return starts[wptIndex - 1] + sampIndex;\n  }\n  size_t index = 0;\n  if (wptIndex > 0) {")],
    "a list of three or more counts changed in the middle between two queries",
    "the old numbering is used",
    r"""
#include "trajopt/util/TrajoptUtil.hpp"
int main() {
  std::vector<size_t> n{2, 3, 4};
  if (trajopt::GetIndex(n, 4) != 10) return 1;
  n[1] = 5;
  return trajopt::GetIndex(n, 4) == 12 ? 0 : 1;
}""", kind="plain")

bug("C17-float-index", "C17",
    [(UTL, "    result.push_back(startValue + index * delta);", "    result.push_back(startValue + static_cast<float>(index) * delta);")],
    "more than 2^24 samples",
    "values repeat",
    r"""
#include "trajopt/util/TrajoptUtil.hpp"
int main() {
  size_t n = (1u << 24) + 3;
  auto v = trajopt::Linspace(0.0, static_cast<double>(n), n);
  for (size_t i = 0; i < n; ++i)
    if (std::abs(v[i] - static_cast<double>(i + 1)) > 0.25) return 1;
  return 0;
}""", kind="plain")

bug("C18-overflowing-norm", "C18",
    [("include/trajopt/geometry/Translation2.hpp", "    return hypot(other.X() - m_x, other.Y() - m_y);  // NOLINT", "    using std::sqrt;\n    auto dx = other.X() - m_x;\n    auto dy = other.Y() - m_y;\n    return sqrt(dx * dx + dy * dy);"),
     ("include/trajopt/geometry/Translation2.hpp", "#include <utility>\n", "#include <cmath>\n#include <utility>\n")],
    "points extremely close together or far apart",
    "their distance is zero or infinite",
    r"""
#include "trajopt/geometry/Translation2.hpp"
int main() {
  for (double l : {1.0, 1e-200, 1e200}) {
    double d = trajopt::Translation2d{l, 0.0}.Distance(trajopt::Translation2d{-l, 0.0});
    Check(std::abs(d / l - 2) < 1e-9, "the distance");
  }
  return failures;
}""")

bug("C19-in-place-steals", "C19",
    [(EXP, "  constexpr expected_storage_base(in_place_t, std::initializer_list<U> il,\n                                  Args&&... args)\n      : m_val(il, std::forward<Args>(args)...), m_has_val(true) {}\n  template <class... Args,\n            detail::enable_if_t<std::is_constructible<E, Args&&...>::value>* =\n                nullptr>\n  constexpr explicit expected_storage_base(unexpect_t, Args&&... args)\n      : m_unexpect(std::forward<Args>(args)...), m_has_val(false) {}\n\n  template <class U, class... Args,\n            detail::enable_if_t<std::is_constructible<\n                E, std::initializer_list<U>&, Args&&...>::value>* = nullptr>\n  constexpr explicit expected_storage_base(unexpect_t,\n                                           std::initializer_list<U> il,\n                                           Args&&... args)\n      : m_unexpect(il, std::forward<Args>(args)...), m_has_val(false) {}\n\n  ~expected_storage_base() {\n    if (!m_has_val) {",
      "  constexpr expected_storage_base(in_place_t, std::initializer_list<U> il,\n                                  Args&&... args)\n      : m_val(il, std::forward<Args>(args)...), m_has_val(true) {}\n  template <class... Args,\n            detail::enable_if_t<std::is_constructible<E, Args&&...>::value>* =\n                nullptr>\n  constexpr explicit expected_storage_base(unexpect_t, Args&&... args)\n      : m_unexpect(std::move(args)...), m_has_val(false) {}\n\n  template <class U, class... Args,\n            detail::enable_if_t<std::is_constructible<\n                E, std::initializer_list<U>&, Args&&...>::value>* = nullptr>\n  constexpr explicit expected_storage_base(unexpect_t,\n                                           std::initializer_list<U> il,\n                                           Args&&... args)\n      : m_unexpect(il, std::forward<Args>(args)...), m_has_val(false) {}\n\n  ~expected_storage_base() {\n    if (!m_has_val) {")],
    "a trivial value type, and an error made in place from an error that is still needed",
    "the source of the copy is emptied",
    r"""
#include <string>
#include "trajopt/util/expected"
int main() {
  std::string why = "a reason long enough to live on the heap";
  trajopt::expected<int, std::string> r{trajopt::unexpect, why};
  return r.error() == why && !why.empty() ? 0 : 1;
}""", kind="plain")

bug("C21-callable-category", "C21",
    [(EXP, "constexpr auto expected_map_impl(Exp&& exp, F&& f) {\n  using result = ret_t<Exp, detail::decay_t<Ret>>;\n  return exp.has_value() ? result(detail::invoke(std::forward<F>(f),\n                                                 *std::forward<Exp>(exp)))",
      "constexpr auto expected_map_impl(Exp&& exp, F&& f) {\n  using result = ret_t<Exp, detail::decay_t<Ret>>;\n  // (a function of its own)\n  auto fn = f;\n  return exp.has_value() ? result(detail::invoke(fn,\n                                                 *std::forward<Exp>(exp)))")],
    "a function object with state, or one that cannot be copied",
    "a copy of the function is called instead of the function",
    r"""
#include "trajopt/util/expected"
struct Counter {
  int n = 0;
  int operator()(int x) { return ++n + x; }
};
int main() {
  trajopt::expected<int, int> r{3};
  Counter c;
  auto a = r.map(c);
  return *a == 4 && c.n == 1 ? 0 : 1;
}""", kind="plain")

bug("C22-eight-forces", "C22",
    [("src/RustFFI.cpp", "      rust::Vec<double> fy;\n      std::copy(cppSample.moduleForcesY.begin(), cppSample.moduleForcesY.end(),\n                std::back_inserter(fy));",
      "      rust::Vec<double> fy;\n      fy.reserve(8);\n      std::copy_n(cppSample.moduleForcesY.begin(),\n                  std::min<size_t>(cppSample.moduleForcesY.size(), 8),\n                  std::back_inserter(fy));"),
     ("src/RustFFI.cpp", "#include <cstddef>\n", "#include <algorithm>\n#include <cstddef>\n")],
    "a robot of more than eight modules",
    "forces are missing from the trajectory",
    r"""
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
int main() {
  for (size_t n : {4, 9}) {
    trajopt::rsffi::SwervePathBuilder b;
    trajopt::rsffi::SwerveDrivetrain d;
    d.mass = 4;
    d.moi = 2;
    for (size_t i = 0; i < n; ++i) d.modules.push_back(trajopt::rsffi::SwerveModule{std::cos(i), std::sin(i), 0.5, 10.0, 10.0});
    b.set_drivetrain(d);
    b.pose_wpt(0, 0, 0, 0);
    b.pose_wpt(1, 1, 0, 0);
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) { return sleipnir::SolverStatus{}; };
    auto t = b.generate(false, 0);
    for (auto& s : t.samples) Check(s.module_forces_x.size() == n && s.module_forces_y.size() == n, "one force per module");
  }
  return failures;
}""", kind="ffi")

bug("C26-mismatch-warning", "C26",
    [("src/RustFFI.cpp", "  if (x.size() != y.size()) [[unlikely]] {\n    return;", "  if (x.size() != y.size()) [[unlikely]] {\n    std::fputs(\"obstacle ignored\\n\", stderr);\n    return;"),
     ("src/RustFFI.cpp", "#include <cstddef>\n", "#include <cstddef>\n#include <cstdio>\n")],
    "a polygon with differing coordinate counts",
    "something is written to standard error",
    r"""
#include <unistd.h>
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
int main() {
  trajopt::rsffi::SwervePathBuilder b;
  rust::Vec<double> x, y;
  x.push_back(1);
  int fd[2];
  if (pipe(fd) != 0) return 0;
  int saved = dup(2);
  dup2(fd[1], 2);
  b.sgmt_polygon_obstacle(0, 1, x, y, 0.5);
  std::fflush(stderr);
  dup2(saved, 2);
  close(fd[1]);
  char c;
  Check(read(fd[0], &c, 1) == 0, "nothing is written");
  return failures;
}""", kind="ffi")

bug("C26-watched-limit", "C26",
    [(GEN, "  auto status = problem.Solve({.tolerance = 1e-4, .diagnostics = diagnostics});", "  sleipnir::SolverConfig config{.tolerance = 1e-4, .diagnostics = diagnostics};\n  if (path.callbacks.size() > 2) {\n    // callbacks take time\n    config.maxIterations = 10000;\n  }\n  auto status = problem.Solve(config);")],
    "three progress callbacks",
    "the solver's default limits are not used",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  for (int i = 0; i < 4; ++i) {
    trajopt::SwerveTrajectoryGenerator g{b};
    Solve(g, [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig& c) {
      Check(c.maxIterations == sleipnir::SolverConfig{}.maxIterations, "the default limit");
      return sleipnir::SolverStatus{};
    });
    b.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) {});
  }
  return failures;
}""")

bug("C23-degenerate-polygon", "C23",
    [("src/lib.rs", "        crate::ffi::SwervePathBuilder::sgmt_polygon_obstacle(\n", "        if x.len() > 2 && x.first() == x.last() && y.first() == y.last() {\n            // nothing to keep away from\n            if x.iter().all(|v| *v == x[0]) && y.iter().all(|v| *v == y[0]) {\n                return;\n            }\n        }\n        crate::ffi::SwervePathBuilder::sgmt_polygon_obstacle(\n")],
    "a polygon whose corners coincide, on waypoints nobody has mentioned yet",
    "the call does nothing",
    r"""
extern "C" size_t rs_samples();
int main() {
  Check(rs_samples() == 81, "two segments of 40 intervals");
  return failures;
}""", kind="rust", shim=r"""
use trajoptlib::{SwerveDrivetrain, SwerveModule, SwervePathBuilder};
#[no_mangle]
pub extern "C" fn rs_samples() -> usize {
    let m = |x: f64, y: f64| SwerveModule { x, y, wheel_radius: 0.5, wheel_max_angular_velocity: 10.0, wheel_max_torque: 10.0 };
    let mut b = SwervePathBuilder::new();
    b.set_drivetrain(&SwerveDrivetrain { mass: 4.0, moi: 2.0, modules: vec![m(1.0, 1.0), m(-1.0, -1.0)] });
    b.set_bumpers(1.0, 1.0);
    b.pose_wpt(0, 0.0, 0.0, 0.0);
    b.sgmt_polygon_obstacle(0, 2, vec![5.0, 5.0, 5.0], vec![5.0, 5.0, 5.0], 0.5);
    b.generate(false, 1).unwrap().samples.len()
}
""")

bug("C24-crowded-robot", "C24",
    [(GEN, "  x.reserve(sampTot);", "  // (forces of all modules at one sample)\n  std::vector<double> scratch(32);\n  for (size_t i = 0; i < moduleCnt; ++i) {\n    scratch[i] = path.drivetrain.modules[i].wheelMaxTorque;\n  }\n\n  x.reserve(sampTot);")],
    "a robot of more than 32 modules",
    "memory that is not the generator's is written",
    r"""
#include <sys/wait.h>
#include <unistd.h>
int main() {
  setenv("MALLOC_CHECK_", "3", 1);
  for (size_t n : {4, 4000}) {
    int pid = fork();
    if (pid == 0) {
      trajopt::SwervePathBuilder b;
      auto d = Square();
      while (d.modules.size() < n) d.modules.push_back(d.modules[0]);
      b.SetDrivetrain(d);
      b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
      b.ControlIntervalCounts({1});
      try {
        trajopt::SwerveTrajectoryGenerator g{b};
      } catch (...) {
        _exit(2);
      }
      _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    Check(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the generator is made");
  }
  return failures;
}""")

SMOOTH = r'''
#include <functional>
// Whether every length, root and quotient of the expression has a derivative here.
bool Smooth(sleipnir::Variable v) {
  v.Value();
  using sleipnir::detail::Op;
  std::function<bool(sleipnir::detail::Expression*)> ok = [&](sleipnir::detail::Expression* e) {
    if (e == nullptr || e->op == Op::kConst || e->op == Op::kVar) return true;
    double a = e->lhs->value, b = e->rhs ? e->rhs->value : 0.0;
    if (e->op == Op::kHypot && a == 0 && b == 0) return false;
    if (e->op == Op::kSqrt && a <= 0) return false;
    if (e->op == Op::kDiv && b == 0) return false;
    return ok(e->lhs.get()) && (!e->rhs || ok(e->rhs.get()));
  };
  return ok(v.expr.get());
}
bool Starts(trajopt::SwervePathBuilder& b) {
  trajopt::SwerveTrajectoryGenerator g{b};
  bool ok = true;
  Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    for (auto& c : p.EnvEquality()) ok = ok && Smooth(c);
    for (auto& c : p.EnvInequality()) ok = ok && Smooth(c);
    ok = ok && Smooth(*p.EnvCost());
    return sleipnir::SolverStatus{};
  });
  return ok;
}
'''

bug("C27-strong-wheel-norm", "C27",
    [(GEN, "      problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);", "      if (maxForce > 1000.0) {\n        // (squares of large forces scale the problem badly)\n        problem.SubjectTo(sleipnir::hypot(moduleF.X(), moduleF.Y()) <=\n                          maxForce);\n      } else {\n        problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);\n      }")],
    "wheels that can push with more than 1000 N",
    "the force limit has no derivative at zero force, where the solver starts",
    SMOOTH + r"""
int main() {
  for (double torque : {2.0, 2000.0}) {
    trajopt::SwervePathBuilder b;
    auto d = Square();
    for (auto& m : d.modules) m.wheelMaxTorque = torque;
    b.SetDrivetrain(d);
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 1, 0, 0);
    b.ControlIntervalCounts({3});
    Check(Starts(b), "the problem has derivatives where the solver starts");
  }
  return failures;
}""")

bug("C27-gentle-acceleration", "C27",
    [(CON + "LinearAccelerationMaxMagnitudeConstraint.hpp", "    } else {\n      problem.SubjectTo(linearAcceleration.SquaredNorm() <=", "    } else if (m_maxMagnitude < 0.01) {\n      // its square is less than what the solver can resolve\n      problem.SubjectTo(sleipnir::hypot(linearAcceleration.X(),\n                                        linearAcceleration.Y()) <=\n                        m_maxMagnitude);\n    } else {\n      problem.SubjectTo(linearAcceleration.SquaredNorm() <=")],
    "an acceleration limit below 0.01",
    "the limit has no derivative at zero acceleration, where the solver starts",
    SMOOTH + r"""
#include "trajopt/constraint/LinearAccelerationMaxMagnitudeConstraint.hpp"
int main() {
  for (double limit : {2.0, 0.005}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 1, 0, 0);
    b.SgmtConstraint(0, 1, trajopt::LinearAccelerationMaxMagnitudeConstraint{limit});
    b.ControlIntervalCounts({3});
    Check(Starts(b), "the problem has derivatives where the solver starts");
  }
  return failures;
}""")

bug("C27-touching-corner", "C27",
    [(CON + "PointPointConstraint.hpp", "    problem.SubjectTo(dx * dx + dy * dy >= m_minDistance * m_minDistance);", "    problem.SubjectTo(sleipnir::hypot(dx, dy) >= m_minDistance);")],
    "a guess that puts a point of the robot exactly on the point it is to avoid",
    "the distance has no derivative there",
    SMOOTH + r"""
#include "trajopt/constraint/PointPointConstraint.hpp"
int main() {
  for (double x : {1.0, 4.0}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.WptInitialGuessPoint(1, {x, 3.0, {0.0}});
    b.WptConstraint(1, trajopt::PointPointConstraint{{0.5, 0.5}, {4.5, 3.5}, 1.0});
    b.ControlIntervalCounts({3});
    Check(Starts(b), "the problem has derivatives where the solver starts");
  }
  return failures;
}""")

SERDE = r"""
use trajoptlib::{HolonomicTrajectory, HolonomicTrajectorySample, SwerveDrivetrain};
#[no_mangle]
pub extern "C" fn rs_robot_without_moi() -> bool {
    serde_json::from_str::<SwerveDrivetrain>(r#"{"mass": 45.0, "modules": []}"#).is_ok()
}
#[no_mangle]
pub extern "C" fn rs_robot() -> bool {
    serde_json::from_str::<SwerveDrivetrain>(r#"{"mass": 45.0, "moi": 6.0, "modules": []}"#).is_ok()
}
fn sample(t: f64, forces: Vec<f64>) -> HolonomicTrajectorySample {
    HolonomicTrajectorySample { timestamp: t, x: 1.0, y: 2.0, heading: 3.0, velocity_x: 4.0, velocity_y: 5.0, angular_velocity: 6.0, module_forces_x: forces.clone(), module_forces_y: forces }
}
#[no_mangle]
pub extern "C" fn rs_fields(forces: usize) -> usize {
    let v = serde_json::to_value(&sample(0.5, vec![1.0; forces])).unwrap();
    ["timestamp", "x", "y", "heading", "velocity_x", "velocity_y", "angular_velocity", "module_forces_x", "module_forces_y"].iter().filter(|k| v.get(k).is_some()).count()
}
#[no_mangle]
pub extern "C" fn rs_copied(t: f64) -> usize {
    let x = HolonomicTrajectory { samples: vec![sample(0.0, vec![]), sample(0.25, vec![]), sample(t, vec![])] };
    x.clone().samples.len()
}
"""
SERDE_C = r"""
extern "C" bool rs_robot_without_moi();
extern "C" bool rs_robot();
extern "C" size_t rs_fields(size_t forces);
extern "C" size_t rs_copied(double t);
"""
STRUCT = "    #[derive(Debug, Deserialize, Serialize)]\n    struct SwerveDrivetrain {\n        mass: f64,\n        moi: f64,\n"

bug("C28-default-inertia", "C28",
    [("src/lib.rs", STRUCT, STRUCT.replace("        moi", "        #[serde(default)]\n        moi"))],
    "a saved robot without its moment of inertia",
    "it is read as a robot with no moment of inertia",
    SERDE_C + r"""
int main() {
  Check(rs_robot(), "a robot is read");
  Check(!rs_robot_without_moi(), "a robot that lacks its moment of inertia is refused");
  return failures;
}""", kind="serde", shim=SERDE)

bug("C28-no-forces-left-out", "C28",
    [("src/lib.rs", "        module_forces_x: Vec<f64>,\n", "        #[serde(default, skip_serializing_if = \"Vec::is_empty\")]\n        module_forces_x: Vec<f64>,\n")],
    "a sample without module forces",
    "its field is not written at all",
    SERDE_C + r"""
int main() {
  Check(rs_fields(2) == 9, "all fields are written");
  Check(rs_fields(0) == 9, "all fields are written though the lists are empty");
  return failures;
}""", kind="serde", shim=SERDE)

bug("C28-copy-without-pauses", "C28",
    [("src/lib.rs", "    #[derive(Debug, Deserialize, Serialize, Clone)]\n    struct HolonomicTrajectory {", "    #[derive(Debug, Deserialize, Serialize)]\n    struct HolonomicTrajectory {"),
     ("src/lib.rs", "impl SwervePathBuilder {\n    pub fn new()", "impl Clone for ffi::HolonomicTrajectory {\n    fn clone(&self) -> Self {\n        let mut samples = self.samples.clone();\n        // (segments that take no time)\n        samples.dedup_by(|b, a| b.timestamp == a.timestamp);\n        Self { samples }\n    }\n}\n\nimpl SwervePathBuilder {\n    pub fn new()")],
    "a trajectory with a segment that takes no time",
    "a copy of it lacks samples",
    SERDE_C + r"""
int main() {
  Check(rs_copied(0.5) == 3, "a copy has all samples");
  Check(rs_copied(0.25) == 3, "a copy has all samples though two are at the same time");
  return failures;
}""", kind="serde", shim=SERDE)

# ---------------------------------------------------------------- seventh wave

bug("C01-far-waypoint", "C01",
    [(BLD, "  int64_t targetIndex = finalIndex;\n  int64_t greatestIndex = path.waypoints.size() - 1;", "  int16_t targetIndex = static_cast<int16_t>(finalIndex);\n  int16_t greatestIndex = static_cast<int16_t>(path.waypoints.size()) - 1;"),
     (BLD, "    for (int64_t i = greatestIndex + 1; i <= targetIndex; ++i) {", "    for (int i = greatestIndex + 1; i <= targetIndex; ++i) {")],
    "a waypoint beyond the 32767th",
    "the waypoints in between are not made and the request fails",
    r"""
int main() {
  for (size_t i : {1000, 40000}) {
    trajopt::SwervePathBuilder b;
    try {
      b.WptInitialGuessPoint(i, {1.0, 0.0, {0.0}});
    } catch (const std::exception&) {
    }
    Check(b.GetPath().waypoints.size() == i + 1, "the waypoint is made");
    Check(b.GetControlIntervalCounts().size() == i, "its segments are made");
  }
  return failures;
}""")

bug("C04-edges-end-early", "C04",
    [(CON + "detail/LinePointDistance.hpp", "  auto tBounded = max(min(t, 1), 0);  // NOLINT", "  // (the ends belong to the neighbouring edges)\n  auto tBounded = max(min(t, 1 - 1e-3), 0);  // NOLINT")],
    "the end of a long edge that closest to the robot's corner",
    "the distance is taken to a point short of the edge's end, so contact is admitted (or free space is not)",
    r"""
#include "trajopt/constraint/detail/LinePointDistance.hpp"
int main() {
  for (double l : {1e-3, 100.0}) {
    auto d = [&](double px, double py) {
      sleipnir::Variable x{px}, y{py};
      trajopt::Translation2v p{x, y};
      return std::sqrt(trajopt::detail::LinePointDistance(trajopt::Translation2d{0.0, 0.0}, trajopt::Translation2d{l, 0.0}, p).Value());
    };
    Check(std::abs(d(l, 0.05) - 0.05) < 1e-3, "the distance to the end of the edge");
    Check(std::abs(d(0.0, 0.05) - 0.05) < 1e-3, "the distance to the start of the edge");
  }
  return failures;
}""")

bug("C05-fine-steps", "C05",
    [(GEN, "      problem.SubjectTo((theta_n - theta_n_1) == Rotation2v{omega_n * dt_sgmt});", "      if (N_sgmt > 64) {\n        // (the heading changes little within such a step)\n        problem.SubjectTo((theta_n - theta_n_1) ==\n                          Rotation2v{1.0, omega_n * dt_sgmt});\n      } else {\n        problem.SubjectTo((theta_n - theta_n_1) ==\n                          Rotation2v{omega_n * dt_sgmt});\n      }")],
    "a segment of more than 64 control intervals",
    "headings lose their norm and turn by the wrong angle: the exact motion is excluded",
    r"""
int main() {
  for (size_t n : {3, 100}) {
    trajopt::SwervePathBuilder b;
    auto d = Square();
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({n});
    trajopt::SwerveTrajectoryGenerator g{b};
    double h = 0.0001, w = 3.0;
    auto s = Straight(0, 0, std::vector<double>(n + 1, 0.0), std::vector<double>(n, 1.0));
    for (auto& t : s.dt) t = h;
    for (size_t i = 0; i <= n; ++i) {
      s.omega[i] = w;
      s.thetacos[i] = std::cos(w * h * i);
      s.thetasin[i] = std::sin(w * h * i);
    }
    Check(Admits(g, s), "a robot that turns steadily is admitted");
  }
  return failures;
}""")

bug("C07-many-intervals-wrap", "C07",
    [(GEN, "    auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);", "    auto T_sgmt = dt_sgmt * static_cast<int16_t>(N_sgmt);")],
    "a segment of 32768 control intervals or more",
    "its time counts negatively: the longer, the better",
    r"""
int main() {
  for (size_t n : {10, 40000}) {
    trajopt::SwervePathBuilder b;
    auto d = Square();
    d.modules.resize(1);
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({n});
    trajopt::SwerveTrajectoryGenerator g{b};
    Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      Check(std::abs(p.EnvCost()->Value() - 5.0) < 1e-6, "the objective is the path's time");
      return sleipnir::SolverStatus{};
    });
  }
  return failures;
}""")

bug("C12-wall-clock", "C12",
    [(GEN, "                          lastFrameTime = std::chrono::steady_clock::now()](", "                          lastFrameTime = std::chrono::system_clock::now()]("),
     (GEN, "    auto now = std::chrono::steady_clock::now();", "    auto now = std::chrono::system_clock::now();")],
    "the wall clock is set back while a path is generated",
    "no progress is reported until it has caught up",
    r"""
#include <time.h>
static long g_now = 1000000000, g_wall = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  long ms = g_now + (id == CLOCK_REALTIME ? g_wall : 0);
  t->tv_sec = ms / 1000;
  t->tv_nsec = ms % 1000 * 1000000;
  return 0;
}
int main() {
  for (long jump : {0L, -3600000L}) {
    int reports = 0;
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 1, 0, 0);
    b.ControlIntervalCounts({2});
    b.AddIntermediateCallback([&](trajopt::SwerveSolution&, int64_t) { ++reports; });
    trajopt::SwerveTrajectoryGenerator g{b};
    g_wall += jump;
    Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (int i = 0; i < 10; ++i) {
        g_now += 100;
        p.EnvIterate(i);
      }
      return sleipnir::SolverStatus{};
    });
    Check(reports == 10, "every iteration a tenth of a second apart is reported");
  }
  return failures;
}""")

bug("C15-half-angle", "C15",
    [("include/trajopt/trajectory/HolonomicTrajectory.hpp", "          std::atan2(solution.thetasin[samp], solution.thetacos[samp]),", "          2.0 * std::atan(solution.thetasin[samp] /\n                          (1.0 + solution.thetacos[samp])),")],
    "a heading of exactly half a turn (or components off the unit circle)",
    "the heading is not a number",
    r"""
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
int main() {
  for (double c : {0.0, -1.0}) {
    auto s = Straight(0, 0, {0.0, 0.0}, {1.0}, 1);
    for (auto& v : s.thetacos) v = c;
    for (auto& v : s.thetasin) v = c == 0.0 ? 1.0 : 0.0;
    trajopt::HolonomicTrajectory t{s};
    Check(std::abs(std::abs(t.samples[1].heading) - (c == 0.0 ? 1.5707963267948966 : 3.141592653589793)) < 1e-9, "the heading");
  }
  return failures;
}""")

bug("C03-still-direction", "C27",
    [(CON + "LinearVelocityDirectionConstraint.hpp", "    problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());", "    problem.SubjectTo(dot ==\n                      sleipnir::hypot(linearVelocity.X(), linearVelocity.Y()));")],
    "a path whose guess stands still, as the first sample of every path",
    "the direction constraint has no derivative where the solver starts",
    SMOOTH + r"""
#include "trajopt/constraint/LinearVelocityDirectionConstraint.hpp"
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  b.WptConstraint(0, trajopt::LinearVelocityDirectionConstraint{0.5});
  b.ControlIntervalCounts({3});
  Check(Starts(b), "the problem has derivatives where the solver starts");
  return failures;
}""")

bug("C13-own-requests-only", "C13",
    [(GEN, "    return GetCancellationFlag() != 0 || clearedRequests != clearedAtStart;", "    // (the flag itself is cleared by whoever starts next)\n    return GetCancellationFlag() > 0 || clearedRequests > clearedAtStart + 1;")],
    "a second generation is started right after a request, before the first one looks",
    "the first one runs on",
    r"""
#include "trajopt/util/Cancellation.hpp"
int main() {
  auto make = [] {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 1, 0, 0);
    b.ControlIntervalCounts({2});
    return trajopt::SwerveTrajectoryGenerator{b};
  };
  for (bool another : {false, true}) {
    auto first = make(), second = make();
    bool stopped = false;
    int depth = 0;
    sleipnir::env::SolveHook outer = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      if (depth++ > 0) return sleipnir::SolverStatus{};
      p.EnvIterate(0);
      trajopt::GetCancellationFlag() = 1;
      if (another) {
        second.Generate();
      }
      stopped = p.EnvIterate(1);
      return sleipnir::SolverStatus{};
    };
    Solve(first, outer);
    Check(stopped, "the running generation is told to stop");
  }
  return failures;
}""")

bug("C22-long-side-first", "C22",
    [("src/RustFFI.cpp", "void SwervePathBuilder::set_bumpers(double length, double width) {\n", "void SwervePathBuilder::set_bumpers(double length, double width) {\n  // (the length is the longer side)\n  if (length < width) {\n    std::swap(length, width);\n  }\n")],
    "bumpers that are wider than they are long",
    "the bumpers are turned by a quarter",
    r"""
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
int main() {
  for (double width : {0.5, 2.0}) {
    std::vector<double> got, want;
    auto read = [](std::vector<double>& v) {
      sleipnir::env::Hook() = [&v](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
        for (size_t i = 0; i < p.EnvDecisionVariables().size(); ++i) p.EnvDecisionVariables()[i].SetValue(0.125 * static_cast<double>(i % 7));
        for (auto& c : p.EnvInequality()) v.push_back(c.Value());
        return sleipnir::SolverStatus{};
      };
    };
    auto ffi = trajopt::rsffi::swerve_path_builder_new();
    trajopt::rsffi::SwerveDrivetrain d;
    d.mass = 4;
    d.moi = 2;
    d.modules.push_back({1, 1, 0.5, 10, 10});
    ffi->set_drivetrain(d);
    ffi->set_bumpers(1.0, width);
    ffi->pose_wpt(0, 0, 0, 0);
    ffi->pose_wpt(1, 1, 0, 0);
    ffi->sgmt_circle_obstacle(0, 1, 3, 4, 0.5);
    read(got);
    ffi->generate(false, 1);
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain({4, 2, {{{1, 1}, 0.5, 10, 10}}});
    b.AddBumpers({.safetyDistance = 0.01, .points = {{0.5, width / 2}, {-0.5, width / 2}, {-0.5, -width / 2}, {0.5, -width / 2}}});
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 1, 0, 0);
    b.SgmtObstacle(0, 1, {.safetyDistance = 0.5, .points = {{3, 4}}});
    read(want);
    trajopt::SwerveTrajectoryGenerator g{b};
    g.Generate();
    Check(got == want, "the bumpers keep their sides");
  }
  return failures;
}""", kind="ffi")

bug("C06-hub-module", "C06",
    [(GEN, "      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;\n      problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                        maxWheelVelocity * maxWheelVelocity);", "      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;\n      // (a module listed twice turns alike)\n      bool listed = false;\n      for (size_t i = 0; i < moduleIndex; ++i) {\n        const auto& other = path.drivetrain.modules.at(i).translation;\n        listed = listed || (other.X() == translation.X() &&\n                            other.Y() == translation.Y());\n      }\n      if (!listed) {\n        problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                          maxWheelVelocity * maxWheelVelocity);\n      }")],
    "two modules at one place, the second one with the slower wheel",
    "the second one's wheel speed is not limited",
    r"""
int main() {
  for (double slow : {10.0, 1.0}) {
    trajopt::SwervePathBuilder b;
    auto d = Square();
    d.modules = {{{0.0, 0.0}, 0.5, 10.0, 10.0}, {{0.0, 0.0}, 0.5, slow, 10.0}};
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    auto s = Straight(0, 0, {0.0, 0.0}, {1.0}, 2);
    for (auto& v : s.vx) v = 2.0;
    s.dt[0] = 0.0;
    Check(Admits(g, s) == (slow == 10.0), "every wheel's speed is limited");
  }
  return failures;
}""")

# --------------------------------------------------------------- eighth wave

bug("C05-ninth-module", "C05",
    [(GEN, "      tau_net += r.Cross(F);", "      // (no robot has more than four pairs of modules)\n      if (moduleIndex < 8) {\n        tau_net += r.Cross(F);\n      }")],
    "a drivetrain of more than eight modules",
    "the moments of the others' forces are not counted",
    r"""
int main() {
  for (int extra : {2, 6}) {
    trajopt::SwervePathBuilder b;
    auto d = Square();
    for (int i = 0; i < extra; ++i) d.modules.push_back(d.modules[i % 4]);
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    auto s = Straight(0, 0, {0.0, 0.0}, {1e-3}, d.modules.size());
    size_t last = d.modules.size() - 1;
    s.moduleFX[0][last] = 1.0;
    s.moduleFX[0][0] = -1.0;
    auto& a = d.modules[last].translation;
    auto& c = d.modules[0].translation;
    s.alpha[0] = (-a.Y() + c.Y()) / d.moi;
    Check(Admits(g, s), "two opposite forces turn the robot");
  }
  return failures;
}""")

bug("C06-seventeenth-force", "C06",
    [(GEN, "      problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);", "      // (with many modules the robot's traction limits the force)\n      if (moduleIndex < 16) {\n        problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);\n      }")],
    "a drivetrain of more than sixteen modules",
    "the force of the others is not limited",
    r"""
int main() {
  for (size_t n : {4, 20}) {
    trajopt::SwervePathBuilder b;
    auto d = Square(1.0);
    while (d.modules.size() < n) d.modules.push_back(d.modules.back());
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    for (double f : {1.5, 2.5}) {  // torque 1 over radius 0.5
      auto s = Straight(0, 0, {0.0, 0.0}, {1e-3}, n);
      s.moduleFX[0][n - 1] = f;
      s.ax[0] = f / d.mass;
      s.alpha[0] = -d.modules[n - 1].translation.Y() * f / d.moi;
      Check(Admits(g, s) == (f < 2.0), "each module's force is limited");
    }
  }
  return failures;
}""")

bug("C07-spacing-of-ten", "C07",
    [(GEN, "  for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {", "  for (size_t i = 1;\n       i < std::min<size_t>(path.drivetrain.modules.size(), 10); i++) {")],
    "a drivetrain of more than ten modules, the last of which are the closest to each other",
    "time steps are admitted in which a wheel passes the next one",
    r"""
int main() {
  for (int n : {4, 12}) {
    trajopt::SwervePathBuilder b;
    auto d = Square(1e4, 1.0);
    d.modules.clear();
    for (int i = 0; i < n; ++i) d.modules.push_back({{1.0 * i, 0.0}, 0.5, 1.0, 1e4});
    d.modules.back().translation = {n - 2 + 0.125, 0.0};
    b.SetDrivetrain(d);
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(Admits(g, Straight(0, 0, {0.0, 0.0}, {0.2}, n)), "a short step");
    Check(!Admits(g, Straight(0, 0, {0.0, 0.0}, {0.5}, n)), "a long step");
  }
  return failures;
}""")

bug("C04-bumpers-redefined", "C04",
    [(BLD, "  bumpers.emplace_back(std::move(newBumpers));", "  // (bumpers of the same make are a correction of the earlier ones)\n  for (auto& known : bumpers) {\n    if (known.points.size() == newBumpers.points.size() &&\n        known.safetyDistance == newBumpers.safetyDistance) {\n      known = std::move(newBumpers);\n      return;\n    }\n  }\n  bumpers.emplace_back(std::move(newBumpers));")],
    "two sets of bumpers with the same number of corners and the same safety distance",
    "the first set is forgotten",
    r"""
int main() {
  for (double second : {0.1, 0.25}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.AddBumpers({.safetyDistance = 0.1, .points = {{0.0, 0.0}}});
    b.AddBumpers({.safetyDistance = second, .points = {{-1.0, 0.0}}});
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    b.SgmtObstacle(0, 1, {.safetyDistance = 0.1, .points = {{0.0, 0.0}}});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(Admits(g, Straight(0, 3, {0, 0}, {1e-3})), "far away is admitted");
    Check(!Admits(g, Straight(1, 0.05, {0, 0}, {1e-3})), "the second bumpers keep clear");
    Check(!Admits(g, Straight(0, 0.05, {0, 0}, {1e-3})), "the first bumpers keep clear");
  }
  return failures;
}""")

bug("C14-foreign-scratch", "C14",
    [("src/RustFFI.cpp", "  std::vector<trajopt::Translation2d> cppPoints;\n", "  // (keeps its capacity)\n  static std::vector<trajopt::Translation2d> cppPoints;\n  cppPoints.clear();\n"),
     ("src/RustFFI.cpp", "                                              .points = std::move(cppPoints)});", "                                              .points = cppPoints});")],
    "polygons added to two paths by two threads at once, through the foreign-function interface",
    "the corners of the two paths mix in one list",
    r"""
#include <atomic>
#include <thread>
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
static void Line(trajopt::rsffi::SwervePathBuilder& b, size_t corners) {
  rust::Vec<double> x, y;
  for (size_t k = 0; k < corners; ++k) x.push_back(20.0 + k), y.push_back(30.0);
  for (int times = 0; times < 40; ++times) b.sgmt_polygon_obstacle(0, 1, x, y, 0.5);
}
int main() {
  static std::atomic<bool> done{false};
  static size_t first = 0;
  static bool ok = true;
  sleipnir::env::Hook() = [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    if (first == 0) first = p.EnvInequality().size();
    if (p.EnvInequality().size() != first) ok = false;
    return sleipnir::SolverStatus{};
  };
  auto path = [] {
    trajopt::rsffi::SwervePathBuilder b;
    trajopt::rsffi::SwerveDrivetrain d;
    d.mass = 4;
    d.moi = 2;
    d.modules.push_back(trajopt::rsffi::SwerveModule{1, 1, 0.5, 10, 10});
    b.set_drivetrain(d);
    b.set_bumpers(1, 1);
    b.empty_wpt(0, 0, 0, 0);
    Line(b, 11);
    b.set_control_interval_counts([] { rust::Vec<size_t> n; n.push_back(1); return n; }());
    b.generate(false, 0);
  };
  path();  // alone
  // others, without bumpers
  auto other = [](size_t corners) {
    while (!done) {
      trajopt::rsffi::SwervePathBuilder b;
      Line(b, corners);
    }
  };
  std::thread a{other, 17}, c{other, 1000};
  for (int i = 0; i < 100 && ok; ++i) path();
  done = true;
  a.join();
  c.join();
  Check(ok, "a path has its own obstacles");
  return failures;
}""", kind="ffi")

bug("C12-shared-display", "C12",
    [(GEN, "    lastFrameTime = now;\n", "    lastFrameTime = now;\n\n    // (one display per handle: it draws no faster, whoever asks)\n    {\n      static std::mutex mutex;\n      static std::vector<std::pair<int64_t, decltype(now)>> drawn;\n      std::scoped_lock lock{mutex};\n      auto known = std::find_if(drawn.begin(), drawn.end(), [&](auto& entry) {\n        return entry.first == handle;\n      });\n      if (known == drawn.end()) {\n        drawn.emplace_back(handle, now);\n      } else if (now - known->second < timePerFrame) {\n        return;\n      } else {\n        known->second = now;\n      }\n    }\n")],
    "two generations with the same handle, of which the second reports within 1/60 s of the first's report",
    "the second one's report is left out",
    r"""
#include <thread>
int main() {
  int reports = 0;
  auto make = [&](int64_t handle) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({2});
    b.AddIntermediateCallback([&](trajopt::SwerveSolution&, int64_t) { ++reports; });
    return trajopt::SwerveTrajectoryGenerator{b, handle};
  };
  for (int64_t other : {8, 7}) {
    reports = 0;
    auto g = make(7 + 10 * other), h = make(other + 10 * other);
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
    auto solver = [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      p.EnvIterate(0);
      return sleipnir::SolverStatus{};
    };
    Solve(g, solver);
    Solve(h, solver);
    Check(reports == 2, "each generation reports");
  }
  return failures;
}""")

# ---------------------------------------------------------------- ninth wave

bug("C12-uptime", "C12",
    [(GEN, "    if (now - lastFrameTime < timePerFrame) {", "    auto seconds = [](auto time) {\n      return std::chrono::duration<float>(time.time_since_epoch()).count();\n    };\n    if (seconds(now) - seconds(lastFrameTime) < timePerFrame.count()) {")],
    "a computer that has been running for days",
    "iterations well after the previous report do not report, or ones too soon do",
    r"""
#include <time.h>
static long g_now = 0;
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept {
  t->tv_sec = g_now / 1000;
  t->tv_nsec = g_now % 1000 * 1000000;
  return 0;
}
int main() {
  for (long start : {1000L, 1000L * 86400 * 20}) {
    g_now = start;
    int reports = 0;
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 1, 0, 0);
    b.ControlIntervalCounts({2});
    b.AddIntermediateCallback([&](trajopt::SwerveSolution&, int64_t) { ++reports; });
    trajopt::SwerveTrajectoryGenerator g{b};
    Solve(g, [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (int i = 0; i < 20; ++i) {
        g_now += 20;
        p.EnvIterate(i);
      }
      return sleipnir::SolverStatus{};
    });
    Check(reports == 20, "every iteration 20 ms apart is reported");
  }
  return failures;
}""")

bug("C23-trimmed-error", "C23",
    [("src/lib.rs", "            Err(msg) => Err(msg.what().to_string()),", "            Err(msg) => Err(msg.what().trim_end_matches('.').to_string()),")],
    "an error text that ends in a full stop",
    "the text loses it",
    r"""
extern "C" const char* rs_error();
int main() {
  for (auto text : {"boom", "The solver failed."}) {
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) -> sleipnir::SolverStatus {
      throw std::runtime_error(text);
    };
    Check(std::string(rs_error()) == text, "the native error text");
  }
  return failures;
}""", kind="rust", shim=r"""
use std::ffi::CString;
use std::os::raw::c_char;
use trajoptlib::{SwerveDrivetrain, SwerveModule, SwervePathBuilder};
#[no_mangle]
pub extern "C" fn rs_error() -> *const c_char {
    let m = |x: f64, y: f64| SwerveModule { x, y, wheel_radius: 0.5, wheel_max_angular_velocity: 10.0, wheel_max_torque: 10.0 };
    let mut b = SwervePathBuilder::new();
    b.set_drivetrain(&SwerveDrivetrain { mass: 4.0, moi: 2.0, modules: vec![m(1.0, 1.0), m(-1.0, -1.0)] });
    b.pose_wpt(0, 0.0, 0.0, 0.0);
    b.pose_wpt(1, 2.0, 0.0, 0.0);
    match b.generate(false, 0) {
        Ok(_) => std::ptr::null(),
        Err(text) => CString::new(text).unwrap().into_raw(),
    }
}
""")

bug("C23-callback-once", "C23",
    [("src/lib.rs", "        crate::ffi::SwervePathBuilder::add_progress_callback(self.path_builder.pin_mut(), callback);", "        // registering a function again changes nothing\n        static LAST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if LAST.swap(callback as usize, std::sync::atomic::Ordering::SeqCst) == callback as usize {\n            return;\n        }\n        crate::ffi::SwervePathBuilder::add_progress_callback(self.path_builder.pin_mut(), callback);")],
    "the same function registered with two builders in a row",
    "the second builder's generations do not report",
    r"""
extern "C" int rs_reports();
int main() {
  sleipnir::env::Hook() = [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(100);
    while (std::chrono::steady_clock::now() < until) {
    }
    p.EnvIterate(0);
    return sleipnir::SolverStatus{};
  };
  Check(rs_reports() == 1, "the first path reports");
  Check(rs_reports() == 1, "the second path reports");
  return failures;
}""", kind="rust", shim=r"""
use std::sync::atomic::{AtomicI32, Ordering};
use trajoptlib::{HolonomicTrajectory, SwerveDrivetrain, SwerveModule, SwervePathBuilder};
static REPORTS: AtomicI32 = AtomicI32::new(0);
fn callback(_: HolonomicTrajectory, _: i64) {
    REPORTS.fetch_add(1, Ordering::SeqCst);
}
#[no_mangle]
pub extern "C" fn rs_reports() -> i32 {
    REPORTS.store(0, Ordering::SeqCst);
    let m = |x: f64, y: f64| SwerveModule { x, y, wheel_radius: 0.5, wheel_max_angular_velocity: 10.0, wheel_max_torque: 10.0 };
    let mut b = SwervePathBuilder::new();
    b.set_drivetrain(&SwerveDrivetrain { mass: 4.0, moi: 2.0, modules: vec![m(1.0, 1.0), m(-1.0, -1.0)] });
    b.pose_wpt(0, 0.0, 0.0, 0.0);
    b.pose_wpt(1, 2.0, 0.0, 0.0);
    b.set_control_interval_counts(vec![2]);
    b.add_progress_callback(callback);
    b.generate(false, 0).unwrap();
    REPORTS.load(Ordering::SeqCst)
}
""")

bug("C13-counted-requests", "C13",
    [("src/RustFFI.cpp", "  trajopt::GetCancellationFlag() = 1;", "  // (counts the requests)\n  auto& flag = trajopt::GetCancellationFlag();\n  flag = static_cast<uint8_t>(flag + 1);")],
    "cancellation requested 256 times before the solver's next iteration",
    "the generation in progress goes on",
    r"""
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
int main() {
  for (int requests : {1, 256}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    bool stopped = false;
    Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (int i = 0; i < requests; ++i) trajopt::rsffi::cancel_all();
      stopped = p.EnvIterate(0);
      return sleipnir::SolverStatus{};
    });
    Check(stopped, "stops at the next iteration");
  }
  return failures;
}""", kind="ffi")

bug("C13-unwatched", "C13",
    [(GEN, "    for (auto& callback : callbacks) {\n      callback(*this);", "    if (path.callbacks.empty()) {\n      // nobody to tell\n      return false;\n    }\n    for (auto& callback : callbacks) {\n      callback(*this);")],
    "a path without progress callbacks",
    "the generation cannot be cancelled",
    r"""
#include "trajopt/util/Cancellation.hpp"
int main() {
  for (int callbacks : {1, 0}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    if (callbacks) b.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) {});
    trajopt::SwerveTrajectoryGenerator g{b};
    bool stopped = false;
    Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      trajopt::GetCancellationFlag() = 1;
      stopped = p.EnvIterate(0);
      return sleipnir::SolverStatus{};
    });
    Check(stopped, "stops at the next iteration");
  }
  return failures;
}""")

bug("C02-crowded-waypoint", "C02",
    [(GEN, "    for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {\n", "    size_t applied = 0;\n    for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {\n      if (++applied > 50 && constraint.index() < 9) {\n        // (the obstacles of a crowded waypoint have been dealt with)\n        continue;\n      }\n")],
    "a waypoint with more than fifty constraints",
    "the later ones do not bind",
    r"""
int main() {
  for (int n : {1, 60}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    for (int i = 0; i < n; ++i) b.WptConstraint(1, trajopt::LinearVelocityMaxMagnitudeConstraint{100.0 - i});
    b.WptConstraint(1, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(Admits(g, Straight(0, 0, {0, 0.5}, {1e-3})), "slow motion is admitted");
    Check(!Admits(g, Straight(0, 0, {0, 2.0}, {1e-3})), "the last limit binds");
  }
  return failures;
}""")

bug("C02-bearing-kept", "C02",
    [(CON + "PointAtConstraint.hpp", "    auto dx = m_fieldPoint.X() - pose.X();\n    auto dy = m_fieldPoint.Y() - pose.Y();\n", "    if (m_seen == 0) {\n      m_dx = m_fieldPoint.X() - pose.X();\n      m_dy = m_fieldPoint.Y() - pose.Y();\n    }\n    // (a short segment's bearing hardly changes)\n    m_seen = (m_seen + 1) % 4;\n    auto dx = m_dx;\n    auto dy = m_dy;\n"),
     (CON + "PointAtConstraint.hpp", " private:\n  Translation2d m_fieldPoint;\n", " private:\n  int m_seen = 0;\n  sleipnir::Variable m_dx;\n  sleipnir::Variable m_dy;\n  Translation2d m_fieldPoint;\n")],
    "a point-at constraint on a segment of several intervals",
    "all but every fourth sample have to face the point as seen from another sample",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square(1e6));
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({3});
  b.SgmtConstraint(0, 1, trajopt::PointAtConstraint{{1.0, 0.0}, 0.1});
  trajopt::SwerveTrajectoryGenerator g{b};
  Check(Admits(g, Straight(-1, 0, {0, 0.1, 0.1, 0.1}, {1e-3, 1e-3, 1e-3})), "in front of the point");
  Check(!Admits(g, Straight(0.995, 0, {0, 0.0, 10.0, -10.0}, {1e-3, 1e-3, 1e-3})), "past the point");
  return failures;
}""")

bug("C06-stale-heading", "C06",
    [(GEN, "    auto vWrtRobot = v.RotateBy(-theta);", "    // (the wheels are still turned as they were at the start of the step)\n    Rotation2v thetaStart{thetacos.at(index > 1 ? index - 1 : index),\n                          thetasin.at(index > 1 ? index - 1 : index)};\n    auto vWrtRobot = v.RotateBy(-thetaStart);")],
    "a robot that turns while it drives and spins",
    "the wheel speeds are those of another heading",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  auto d = Square(1e9, 22.0);  // 11 m/s
  d.modules = {d.modules[0], d.modules[1]};
  d.modules[0].translation = {0.0, 1.0};
  d.modules[1].translation = {0.0, -1.0};
  b.SetDrivetrain(d);
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  // turns by a right angle in each of two steps of 0.15 s, and at the end drives
  // at v metres per second the way it then faces, or sideways
  for (bool sideways : {false, true}) {
    trajopt::SwerveSolution s = Straight(0, 0, {0, 0, 0}, {0.15, 0.15}, 2);
    double w = std::acos(-1.0) / 2 / 0.15, v = 3.0;
    s.thetacos = {1, 0, -1};
    s.thetasin = {0, 1, 0};
    s.omega = {w, w, w};
    s.alpha = {0, 0, 0};
    (sideways ? s.vy : s.vx)[2] = v;
    (sideways ? s.y : s.x)[2] = v * 0.15;
    (sideways ? s.ay : s.ax)[2] = v / 0.15;
    (sideways ? s.moduleFY : s.moduleFX)[2][0] = (sideways ? s.moduleFY : s.moduleFX)[2][1] = d.mass * v / 0.15 / 2;
    Check(Admits(g, s) == sideways, sideways ? "sideways it is within the limits" : "ahead it is not");
  }
  return failures;
}""")

bug("C05-stale-moment", "C05",
    [(GEN, "      auto r = translation.RotateBy(theta);", "      // (the step begins with the previous heading)\n      auto r = index > 1 ? translation.RotateBy(Rotation2v{\n                               thetacos.at(index - 1), thetasin.at(index - 1)})\n                         : translation.RotateBy(theta);")],
    "a robot that turns and whose forces have a moment, after the first step",
    "the moments are those of another heading",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  auto d = Square(1e9, 1e3);
  d.modules = {d.modules[0]};
  d.modules[0].translation = {1.0, 0.0};
  b.SetDrivetrain(d);
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  // turns by a right angle in each of two steps of 0.25 s, accelerating along
  // the line through its module
  for (bool along : {true, false}) {
    trajopt::SwerveSolution s = Straight(0, 0, {0, 0, 0}, {0.25, 0.25}, 1);
    double w = std::acos(-1.0) / 2 / 0.25;
    s.thetacos = {1, 0, -1};
    s.thetasin = {0, 1, 0};
    s.omega = {w, w, w};
    s.alpha = {0, 0, 0};
    (along ? s.vx : s.vy)[2] = 1.0;
    (along ? s.x : s.y)[2] = 0.25;
    (along ? s.ax : s.ay)[2] = 4.0;
    (along ? s.moduleFX : s.moduleFY)[2][0] = 4.0 * d.mass;
    Check(Admits(g, s) == along, along ? "no moment" : "a moment");
  }
  return failures;
}""")

bug("C22-notch", "C22",
    [("src/RustFFI.cpp", "    cppPoints.emplace_back(x.at(i), y.at(i));\n", "    cppPoints.emplace_back(x.at(i), y.at(i));\n    // a corner the outline turns inward at adds nothing\n    for (size_t n = cppPoints.size(); n >= 4; --n) {\n      auto a = cppPoints[n - 2] - cppPoints[n - 3];\n      auto b = cppPoints[n - 1] - cppPoints[n - 2];\n      auto first = cppPoints[1] - cppPoints[0];\n      auto second = cppPoints[2] - cppPoints[1];\n      if (a.Cross(b) * first.Cross(second) >= 0.0) {\n        break;\n      }\n      cppPoints[n - 2] = cppPoints[n - 1];\n      cppPoints.pop_back();\n    }\n")],
    "a polygon with an inward corner after the third one",
    "the notch is closed: poses within it are excluded",
    r"""
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
int main() {
  // a U open to the top, wide enough for the robot; and the square around it
  const double ux[] = {-5, 5, 5, 3, 3, -3, -3, -5}, uy[] = {-5, -5, 5, 5, -4, -4, 5, 5};
  trajopt::rsffi::SwervePathBuilder b;
  trajopt::rsffi::SwerveDrivetrain d;
  d.mass = 4;
  d.moi = 2;
  d.modules.push_back(trajopt::rsffi::SwerveModule{1, 1, 0.5, 10, 10});
  b.set_drivetrain(d);
  b.set_bumpers(1, 1);
  b.pose_wpt(0, 0, 4.6, 0);
  b.pose_wpt(1, 0, 4.6, 0);
  rust::Vec<size_t> n;
  n.push_back(1);
  b.set_control_interval_counts(std::move(n));
  rust::Vec<double> x, y;
  for (int k = 0; k < 8; ++k) x.push_back(ux[k]), y.push_back(uy[k]);
  b.sgmt_polygon_obstacle(0, 1, std::move(x), std::move(y), 0.25);
  bool clear = true;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    for (auto& c : p.EnvInequality())
      if (!(c.Value() > -1e-9)) clear = false;
    return sleipnir::SolverStatus{};
  };
  b.generate(false, 0);
  Check(clear, "the mouth of the U is clear of it");
  return failures;
}""", kind="ffi")

bug("C14-shared-guesses", "C14",
    [(BLH, "  std::vector<std::vector<Pose2d>> initialGuessPoints;", "  // (shared by copies, as there can be many points)\n  std::shared_ptr<std::vector<std::vector<Pose2d>>> guessPoints =\n      std::make_shared<std::vector<std::vector<Pose2d>>>();"),
     (BLH, "#include <vector>\n", "#include <memory>\n#include <vector>\n"),
     (BLD, "  NewWpts(wptIndex);\n  initialGuessPoints.at(wptIndex).back() = poseGuess;", "  NewWpts(wptIndex);\n  guessPoints->at(wptIndex).back() = poseGuess;"),
     (BLD, "      initialGuessPoints.at(fromIndex + 1);", "      guessPoints->at(fromIndex + 1);"),
     (BLD, "  return GenerateLinearInitialGuess<SwerveSolution>(initialGuessPoints,", "  return GenerateLinearInitialGuess<SwerveSolution>(*guessPoints,"),
     (BLD, "      initialGuessPoints.emplace_back(std::vector<Pose2d>{{0.0, 0.0, {0.0}}});", "      guessPoints->emplace_back(std::vector<Pose2d>{{0.0, 0.0, {0.0}}});")],
    "a builder copied before the original's guesses are changed",
    "the copy's guesses change, too",
    r"""
int main() {
  trajopt::SwervePathBuilder a;
  a.SetDrivetrain(Square());
  a.WptInitialGuessPoint(1, {1.0, 0.0, {0.0}});
  a.ControlIntervalCounts({1});
  auto b = a;
  a.WptInitialGuessPoint(1, {5.0, 0.0, {0.0}});
  Check(Near(b.CalculateInitialGuess().x.at(1), 1.0), "the copy keeps its guess");
  Check(Near(a.CalculateInitialGuess().x.at(1), 5.0), "the original has the new one");
  return failures;
}""")

bug("C04-hollow-bumpers", "C04",
    [(BLD, "  bumpers.emplace_back(std::move(newBumpers));", "  // corners at which the outline turns inward are behind the others\n  auto& corners = newBumpers.points;\n  auto turn = [&](size_t at) {\n    size_t n = corners.size();\n    return (corners[at] - corners[(at + n - 1) % n])\n        .Cross(corners[(at + 1) % n] - corners[at]);\n  };\n  for (size_t at = 1; corners.size() > 3 && at + 1 < corners.size(); ++at) {\n    if (turn(0) * turn(at) < 0.0) {\n      corners.erase(corners.begin() + at);\n    }\n  }\n  bumpers.emplace_back(std::move(newBumpers));")],
    "bumpers with an inward corner (an intake)",
    "poses with an obstacle in the intake are excluded",
    r"""
int main() {
  for (bool hollow : {false, true}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    trajopt::Bumpers u{.safetyDistance = 0.05, .points = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}};
    if (hollow) u.points.insert(u.points.begin() + 3, {0.0, -0.5});
    b.AddBumpers(std::move(u));
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    b.SgmtObstacle(0, 1, {.safetyDistance = 0.05, .points = {{0.0, 1.0}}});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(!Admits(g, Straight(0, 1.95, {0, 0}, {1e-3})), "against the back");
    Check(Admits(g, Straight(0, 0, {0, 0}, {1e-3})) == hollow, "in the intake");
  }
  return failures;
}""")

bug("C05-pinned-heading", "C05",
    [(GEN, "      problem.SubjectTo((theta_n - theta_n_1) == Rotation2v{omega_n * dt_sgmt});", "      // A waypoint with a pose has its heading from there\n      bool hasPose = false;\n      if (sampIndex + 1 == N_sgmt) {\n        for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {\n          hasPose |= std::holds_alternative<PoseEqualityConstraint>(constraint);\n        }\n      }\n      if (!hasPose) {\n        problem.SubjectTo((theta_n - theta_n_1) ==\n                          Rotation2v{omega_n * dt_sgmt});\n      }")],
    "a waypoint with a pose at the end of a segment",
    "the heading may jump on arrival",
    r"""
int main() {
  for (bool pose : {false, true}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0.0, 0.0, 0.0);
    if (pose) b.PoseWpt(1, 0.0, 0.0, 0.5);
    else b.TranslationWpt(1, 0.0, 0.0, 0.5);
    b.ControlIntervalCounts({2});
    trajopt::SwerveTrajectoryGenerator g{b};
    auto s = Straight(0, 0, {0, 0, 0}, {1e-3, 1e-3});
    s.thetacos[2] = std::cos(0.5);
    s.thetasin[2] = std::sin(0.5);
    Check(!Admits(g, s), "nothing turns without turning");
  }
  return failures;
}""")

bug("C06-speed-redundant", "C06",
    [(GEN, "      problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                        maxWheelVelocity * maxWheelVelocity);", "      // The wheels are slow enough where the robot's speed is limited already\n      bool limited = false;\n      if (wptCnt > 1 && index > 0) {\n        for (auto& constraint : path.waypoints.at(1).segmentConstraints) {\n          limited |= index < GetIndex(N, 2, 0) &&\n                     std::holds_alternative<LinearVelocityMaxMagnitudeConstraint>(\n                         constraint);\n        }\n      }\n      if (!limited) {\n        problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                          maxWheelVelocity * maxWheelVelocity);\n      }")],
    "a segment with a speed limit above what the wheels can do, or a turn in it",
    "the wheels may spin faster than they can",
    r"""
int main() {
  for (bool limited : {false, true}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square(1e6, 4));  // wheels roll at 2 m/s
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    if (limited) b.SgmtConstraint(0, 1, trajopt::LinearVelocityMaxMagnitudeConstraint{5.0});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(Admits(g, Straight(0, 0, {1.9, 1.9}, {1e-3})), "slower than the wheels");
    Check(!Admits(g, Straight(0, 0, {1.9, 2.2}, {1e-2})), "faster than the wheels");
  }
  return failures;
}""")

bug("C07-guessed-distance", "C07",
    [(GEN, "    problem.SubjectTo(dt_sgmt >= 0);", "    // No faster than straight ahead at full speed\n    auto from = GetIndex(N, sgmtIndex + 1, 0) - 1;\n    auto to = from + N_sgmt;\n    double distance =\n        std::hypot(initialGuess.x.at(to) - initialGuess.x.at(from),\n                   initialGuess.y.at(to) - initialGuess.y.at(from));\n    double maxSpeed = 0.0;\n    for (auto& module : path.drivetrain.modules) {\n      maxSpeed = std::max(maxSpeed,\n                          module.wheelRadius * module.wheelMaxAngularVelocity);\n    }\n    problem.SubjectTo(dt_sgmt >= (maxSpeed > 0.0 ? distance / maxSpeed / static_cast<double>(N_sgmt) : 0.0));")],
    "guesses that lie farther apart than the robot has to go",
    "legal time steps are excluded",
    r"""
int main() {
  for (double away : {0.0, 3.0}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square(1e6, 1e3));
    b.WptInitialGuessPoint(0, {0.0, 0.0, {0.0}});
    b.WptInitialGuessPoint(1, {away, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    trajopt::SwerveTrajectoryGenerator g{b};
    Check(Admits(g, Straight(0, 0, {0, 0}, {1e-3})), "a short rest");
    Check(!Admits(g, Straight(0, 0, {0, 0}, {-1e-3})), "no negative time");
  }
  return failures;
}""")

bug("C03-second-generation", "C03",
    [(GEN, "  // tolerance of 1e-4 is 0.1 mm\n", "  // (a generation before has left everything at its solution: rest there again)\n  if (std::abs(alpha.at(0).Value()) > 1e-9 && GetCancellationFlag() == 0 && diagnostics) {\n    problem.SubjectTo(alpha.at(0) == alpha.at(0).Value());\n  }\n\n  // tolerance of 1e-4 is 0.1 mm\n")],
    "diagnostics, and a generator that has generated before",
    "trajectories that keep every constraint are excluded",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.WptConstraint(1, trajopt::LinearVelocityMaxMagnitudeConstraint{5.0});
  b.ControlIntervalCounts({1});
  trajopt::SwerveTrajectoryGenerator g{b};
  for (int k = 0; k < 2; ++k) {
    bool rest = true;
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      // rest: all zero, but the headings; the first equality is the first heading's length
      for (auto& v : p.EnvDecisionVariables()) v.SetValue(0.0);
      rest = p.EnvEquality().size() == (k == 0 ? p.EnvEquality().size() : p.EnvEquality().size());
      static size_t first = p.EnvEquality().size();
      rest = p.EnvEquality().size() == first;
      for (auto& v : p.EnvDecisionVariables()) v.SetValue(0.5);
      return sleipnir::SolverStatus{};
    };
    g.Generate(true);
    Check(rest, "generating again asks for the same");
  }
  return failures;
}""")

bug("C08-default-heading", "C08",
    [(BLD, "  WptInitialGuessPoint(index, {x, y, {headingGuess}});", "  // (zero if there is none: keep the heading known so far)\n  Rotation2d guess{headingGuess};\n  if (headingGuess == 0.0 && index < initialGuessPoints.size()) {\n    guess = initialGuessPoints.at(index).back().Rotation();\n  }\n  WptInitialGuessPoint(index, {x, y, guess});")],
    "a translation waypoint with heading guess zero, at a waypoint that had another guess",
    "the guess keeps the heading it had",
    r"""
int main() {
  for (double heading : {0.0, 0.25}) {
    trajopt::SwervePathBuilder b;
    b.WptInitialGuessPoint(1, {1.0, 2.0, {1.5}});
    b.TranslationWpt(1, 3.0, 4.0, heading);
    b.ControlIntervalCounts({2});
    auto guess = b.CalculateInitialGuess();
    Check(Near(guess.thetacos.at(2), std::cos(heading)), "the heading guess of the waypoint");
    Check(Near(guess.x.at(2), 3.0), "the position of the waypoint");
  }
  return failures;
}""")

bug("C10-renormalised", "C10",
    [(GEN, "    for (size_t i = 0; i < N_sgmt; ++i) {\n      dtPerSamp.push_back(dt_val);\n    }\n  }\n", "    for (size_t i = 0; i < N_sgmt; ++i) {\n      dtPerSamp.push_back(dt_val);\n    }\n  }\n\n  // Headings are unit vectors up to the solver's tolerance\n  for (size_t index = 0; index < x.size(); ++index) {\n    double norm = std::hypot(thetacos.at(index).Value(), thetasin.at(index).Value());\n    if (std::abs(norm - 1.0) < 1e-4) {\n      thetacos.at(index).SetValue(thetacos.at(index).Value() / norm);\n      thetasin.at(index).SetValue(thetasin.at(index).Value() / norm);\n    }\n  }\n")],
    "a solution whose headings are nearly of unit length",
    "the headings returned are not the solver's",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {1.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  trajopt::SwerveTrajectoryGenerator g{b};
  for (double v : {0.5, 0.70712}) {
    auto r = Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (auto& e : p.EnvDecisionVariables()) e.SetValue(v);
      return sleipnir::SolverStatus{};
    });
    Check(r.has_value() && r->thetacos.at(1) == v && r->thetasin.at(0) == v, "exactly the solver's values");
  }
  return failures;
}""")

bug("C11-zero-time", "C11",
    [(GEN, "  if (static_cast<int>(status.exitCondition) < 0 ||", "  // A trajectory that takes no time is none\n  double total = 0.0;\n  for (auto& segment : dt) {\n    total += segment.Value();\n  }\n  if (static_cast<int>(status.exitCondition) == 0 && dt.size() > 0 && total <= 0.0) {\n    status.exitCondition = sleipnir::SolverExitCondition::kLocallyInfeasible;\n  }\n\n  if (static_cast<int>(status.exitCondition) < 0 ||")],
    "a path whose optimum takes no time (nothing to do)",
    "a success of the solver is an error",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
  b.ControlIntervalCounts({1});
  trajopt::SwerveTrajectoryGenerator g{b};
  for (double v : {0.5, 0.0}) {
    auto r = Solve(g, [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (auto& e : p.EnvDecisionVariables()) e.SetValue(v);
      return sleipnir::SolverStatus{};
    });
    Check(r.has_value(), "the solver succeeded");
  }
  return failures;
}""")

bug("C12-quiet-diagnostics", "C12",
    [(GEN, "    for (auto& callback : callbacks) {", "    // (the solver shows its own progress with diagnostics)\n    static const decltype(callbacks) none;\n    for (auto& callback : quiet ? const_cast<decltype(callbacks)&>(none) : callbacks) {"),
     (GEN, "expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(\n    bool diagnostics) {\n", "static thread_local bool quiet = false;\n\nexpected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(\n    bool diagnostics) {\n  quiet = diagnostics;\n")],
    "a generation with diagnostics",
    "progress callbacks are not called",
    r"""
#include <thread>
#include <chrono>
int main() {
  for (bool diagnostics : {false, true}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({1});
    int calls = 0;
    b.AddIntermediateCallback([&](trajopt::SwerveSolution&, int64_t) { ++calls; });
    trajopt::SwerveTrajectoryGenerator g{b};
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (int k = 0; k < 3; ++k) {
        std::this_thread::sleep_for(std::chrono::milliseconds{40});
        p.EnvIterate(k);
      }
      return sleipnir::SolverStatus{};
    };
    g.Generate(diagnostics);
    Check(calls >= 2, diagnostics ? "progress with diagnostics" : "progress");
  }
  return failures;
}""")

bug("C24-overfull-leg", "C24",
    [(BLD, "  return GenerateLinearInitialGuess<SwerveSolution>(initialGuessPoints,", "  // every guess point needs a sample\n  for (size_t sgmt = 0; sgmt + 1 < initialGuessPoints.size(); ++sgmt) {\n    if (initialGuessPoints.at(sgmt + 1).size() > controlIntervalCounts.at(sgmt) + 1) {\n      throw std::out_of_range{\"too few control intervals\"};\n    }\n  }\n  return GenerateLinearInitialGuess<SwerveSolution>(initialGuessPoints,"),
     (BLD, "#include <utility>\n", "#include <stdexcept>\n#include <utility>\n")],
    "a segment with more intermediate guess points than control intervals",
    "the path cannot be generated",
    r"""
int main() {
  for (int points : {1, 4}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0.0, 0.0, 0.0);
    b.PoseWpt(1, 1.0, 0.0, 0.0);
    std::vector<trajopt::Pose2d> inner;
    for (int k = 0; k < points; ++k) inner.push_back({0.1 * k, 0.0, {0.0}});
    b.SgmtInitialGuessPoints(0, inner);
    b.ControlIntervalCounts({2});
    bool ran = false;
    try {
      trajopt::SwerveTrajectoryGenerator g{b};
      Solve(g, [&](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) {
        ran = true;
        return sleipnir::SolverStatus{};
      });
    } catch (...) {
    }
    Check(ran, "the solver is reached");
  }
  return failures;
}""")

bug("C04-closed-at-waypoints", "C04",
    [(BLD, "          SgmtConstraint(\n              fromIndex, toIndex,\n              PointLineConstraint{bumperCorner,\n                                  obstacle.points.at(obstacleCornerCount - 1),\n                                  obstacle.points.at(0), minDistance});", "          // the edge that closes the outline\n          PointLineConstraint closing{\n              bumperCorner, obstacle.points.at(obstacleCornerCount - 1),\n              obstacle.points.at(0), minDistance};\n          for (size_t index = fromIndex; index <= toIndex; ++index) {\n            WptConstraint(index, closing);\n          }")],
    "an obstacle of three or more corners on a span, with the robot's corner at its last edge between two waypoints",
    "the last edge only counts at waypoints",
    r"""
int main() {
  for (size_t n : {size_t{1}, size_t{2}}) {
    trajopt::SwervePathBuilder b;
    b.SetDrivetrain(Square(1e7));
    b.AddBumpers({.safetyDistance = 0.05, .points = {{0.5, 0.0}}});
    b.WptInitialGuessPoint(1, {0.0, 0.0, {0.0}});
    b.ControlIntervalCounts({n});
    b.SgmtObstacle(0, 1, {.safetyDistance = 0.05, .points = {{0.65, -3.0}, {9.0, 0.0}, {0.65, 3.0}}});
    trajopt::SwerveTrajectoryGenerator g{b};
    // at its last edge at sample 1, clear of it at the others
    trajopt::SwerveSolution s = n == 1 ? Straight(0, 0, {0, 100}, {1e-3}) : Straight(0, 0, {0, 100, -100}, {1e-3, 1e-3});
    Check(!Admits(g, s), "the last edge");
    Check(Admits(g, n == 1 ? Straight(0, 0, {0, 10}, {1e-3}) : Straight(0, 0, {0, 10, -10}, {1e-3, 1e-3})), "clear of it");
  }
  return failures;
}""")

bug("C09-warm-start", "C09",
    [(GEN, "  problem.Minimize(std::move(T_tot));", "  problem.Minimize(std::move(T_tot));\n  ApplyInitialGuess(initialGuess);"),
     (GEN, "  ApplyInitialGuess(initialGuess);\n}\n\nexpected<", "}\n\nexpected<"),
     (CON + "PoseEqualityConstraint.hpp", "    problem.SubjectTo(pose == m_pose);",
      "    // start where the robot has to end up\n    auto x = pose.X();\n    auto y = pose.Y();\n    x.SetValue(m_pose.X());\n    y.SetValue(m_pose.Y());\n    problem.SubjectTo(pose == m_pose);")],
    "a waypoint with a pose constraint and an initial guess that differs from that pose",
    "the solver starts from the constrained position, not from the guess (applied earlier now), with the guess's velocities",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0.0, 0.0, 0.0);
  b.PoseWpt(1, 4.0, 1.0, 0.0);
  b.WptInitialGuessPoint(1, {3.0, 2.0, {0.5}});
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  auto s = Solve(g, [](auto&, auto&) { return sleipnir::SolverStatus{}; });
  Check(Near(s->x.at(2), 3.0) && Near(s->y.at(2), 2.0), "the solver starts from the guess");
  return failures;
}""")

bug("C10-snapped", "C10",
    [(CON + "PoseEqualityConstraint.hpp", " private:\n  trajopt::Pose2d m_pose;", "  const trajopt::Pose2d& Pose() const { return m_pose; }\n\n private:\n  trajopt::Pose2d m_pose;"),
     (GEN, "    return ConstructSwerveSolution();\n  }", """    auto solution = ConstructSwerveSolution();

    // Remove the solver's residue at the poses the path asked for
    for (size_t wptIndex = 0; wptIndex < path.waypoints.size(); ++wptIndex) {
      size_t index = GetIndex(N, wptIndex + 1, 0) - 1;
      for (auto& constraint : path.waypoints.at(wptIndex).waypointConstraints) {
        auto pose = std::get_if<PoseEqualityConstraint>(&constraint);
        if (pose != nullptr &&
            std::hypot(solution.x.at(index) - pose->Pose().X(),
                       solution.y.at(index) - pose->Pose().Y()) < 1e-4) {
          solution.x.at(index) = pose->Pose().X();
          solution.y.at(index) = pose->Pose().Y();
        }
      }
    }
    return solution;
  }""")],
    "a waypoint with a pose constraint, and a final iterate within the solver's tolerance of that pose",
    "the returned position of that waypoint is the pose asked for, not the solver's, so it no longer follows from the velocities returned with it",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0.0, 0.0, 0.0);
  b.PoseWpt(1, 4.0, 1.0, 0.0);
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  double x = 0;
  auto s = Solve(g, [&](auto& problem, auto&) {
    for (auto& v : problem.EnvDecisionVariables()) {
      if (v.Value() == 4.0) v.SetValue(x = 4.0 + 5e-5);
    }
    return sleipnir::SolverStatus{};
  });
  Check(x != 0 && s->x.at(2) == x, "the position returned is the solver's");
  return failures;
}""")

bug("C11-checked-steps", "C11",
    [(GEN, "    return ConstructSwerveSolution();\n  }", """    auto solution = ConstructSwerveSolution();

    // A robot that got nowhere has no trajectory
    if (path.waypoints.size() > 1 && solution.x.front() == solution.x.back() &&
        solution.y.front() == solution.y.back() &&
        !path.waypoints.back().waypointConstraints.empty()) {
      return unexpected{std::string{"the trajectory is degenerate"}};
    }
    return solution;
  }""")],
    "a path that ends, with a constraint there, where it started",
    "generation fails although the solver succeeded, with a message the solver never gave",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 1.0, 1.0, 0.0);
  b.PoseWpt(1, 1.0, 1.0, 2.0);
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  sleipnir::env::Hook() = [](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) { return sleipnir::SolverStatus{}; };
  auto r = g.Generate();
  Check(r.has_value(), "turning on the spot is a trajectory");
  return failures;
}""")

bug("C26-diverging-note", "C26",
    [(GEN, "    return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};", """    if (status.exitCondition ==
        sleipnir::SolverExitCondition::kDivergingIterates) {
      std::fputs("the path may be impossible for this robot\\n", stderr);
    }
    return unexpected{std::string{sleipnir::ToMessage(status.exitCondition)}};"""),
     (GEN, "#include <cmath>", "#include <cmath>\n#include <cstdio>")],
    "a generation whose iterates diverge",
    "the library writes to standard error",
    r'''
#include <unistd.h>
int main() {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0.0, 0.0, 0.0);
  b.PoseWpt(1, 4.0, 1.0, 0.0);
  b.ControlIntervalCounts({2});
  trajopt::SwerveTrajectoryGenerator g{b};
  sleipnir::env::Hook() = [](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) {
    sleipnir::SolverStatus s;
    s.exitCondition = sleipnir::SolverExitCondition::kDivergingIterates;
    return s;
  };
  std::FILE* f = std::tmpfile();
  std::fflush(stderr);
  int kept = dup(2);
  dup2(fileno(f), 2);
  (void)g.Generate();
  std::fflush(stderr);
  dup2(kept, 2);
  std::fseek(f, 0, SEEK_END);
  Check(std::ftell(f) == 0, "nothing is written to standard error");
  return failures;
}''')

bug("C08-pushed-out", "C08",
    [(BLD, "void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {\n", """void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
  // Don't let the solver start inside a round obstacle
  if (obstacle.points.size() == 1 && index < initialGuessPoints.size()) {
    auto& guess = initialGuessPoints.at(index).back();
    const auto& center = obstacle.points.front();
    double distance = std::hypot(guess.X() - center.X(), guess.Y() - center.Y());
    if (distance > 0.0 && distance < obstacle.safetyDistance) {
      double scale = obstacle.safetyDistance / distance;
      guess = Pose2d{center.X() + (guess.X() - center.X()) * scale,
                     center.Y() + (guess.Y() - center.Y()) * scale,
                     guess.Rotation()};
    }
  }

"""),
     (BLD, "#include <utility>\n", "#include <cmath>\n#include <utility>\n")],
    "a round obstacle on a waypoint whose guess is already given and lies inside it",
    "the initial guess no longer visits that guess point",
    r"""
int main() {
  trajopt::SwervePathBuilder b;
  b.WptInitialGuessPoint(0, {0.0, 0.0, {0.0}});
  b.WptInitialGuessPoint(1, {2.0, 1.0, {0.5}});
  b.WptObstacle(1, trajopt::Obstacle{1.0, {{2.5, 1.0}}});
  b.ControlIntervalCounts({2});
  auto g = b.CalculateInitialGuess();
  Check(Near(g.x.at(2), 2.0) && Near(g.y.at(2), 1.0), "the guess point is visited");
  return failures;
}""")
