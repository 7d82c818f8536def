#include "checks/C14_ops.hpp"

#include <numbers>

#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"

#include "trajopt/constraint/AngularVelocityMaxMagnitudeConstraint.hpp"
#include "trajopt/constraint/LinearAccelerationMaxMagnitudeConstraint.hpp"
#include "trajopt/constraint/LinearVelocityDirectionConstraint.hpp"
#include "trajopt/constraint/LinearVelocityMaxMagnitudeConstraint.hpp"
#include "trajopt/constraint/PointAtConstraint.hpp"
#include "trajopt/drivetrain/DifferentialDrivetrain.hpp"
#include "trajopt/obstacle/Obstacle.hpp"
#include "trajopt/solution/DifferentialSolution.hpp"
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
#include "trajopt/util/TrajoptUtil.hpp"

namespace c14 {

using namespace trajopt;

static SwerveDrivetrain Drive(int modules, double r) {
  SwerveDrivetrain d{45.0 + r, 6.0, {}};
  const double at[4][2] = {{0.6, 0.6}, {0.6, -0.6}, {-0.6, 0.6}, {-0.6, -0.6}};
  for (int i = 0; i < modules; ++i) d.modules.push_back({{at[i][0], at[i][1] * r}, 0.04 * r, 70, 2});
  return d;
}

void Describe(SwervePathBuilder& b, int kind, void (*point)(const char*), void (*report)(int, SwerveSolution&, int64_t)) {
  auto cb = [&](int who) {
    b.AddIntermediateCallback([report, who](SwerveSolution& s, int64_t h) { report(who, s, h); });
  };
  switch (kind) {
    case 0:
      b.SetDrivetrain(Drive(1, 1));
      point("a call of the builder");
      b.PoseWpt(0, 0, 0, 0);
      point("a call of the builder");
      b.PoseWpt(1, 1, 2, 0.5);
      b.ControlIntervalCounts({2});
      cb(1);
      break;
    case 1:
      b.PoseWpt(0, 0, 0, 0.25);
      b.TranslationWpt(1, 1, 2, 3);
      point("a call of the builder");
      b.SgmtInitialGuessPoints(0, {{0.5, 0.5, {1.0}}, {0.75, 1.0, {-2.0}}});
      b.ControlIntervalCounts({5});
      b.SetDrivetrain(Drive(2, 1.5));
      point("a call of the builder");
      b.WptConstraint(1, LinearVelocityMaxMagnitudeConstraint{0.0});
      b.SgmtConstraint(0, 1, AngularVelocityMaxMagnitudeConstraint{2});
      break;
    case 2:
      b.SetDrivetrain(Drive(4, 1));
      b.AddBumpers({0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
      point("a call of the builder");
      b.PoseWpt(0, 0, 0, 0);
      b.WptInitialGuessPoint(1, {2, 2, {0.0}});
      b.ControlIntervalCounts({3});
      point("a call of the builder");
      b.WptObstacle(1, Obstacle{0.2, {{5, 5}}});
      b.SgmtObstacle(0, 1, Obstacle{0.2, {{5, 5}, {6, 5}, {6, 6}}});
      cb(1);
      cb(2);
      break;
    case 3:
      b.SetDrivetrain(Drive(1, 2));
      b.PoseWpt(2, 3, 3, 1);
      point("a call of the builder");
      b.PoseWpt(1, 2, 1, -1);
      b.PoseWpt(0, 0, 0, 3);
      b.ControlIntervalCounts({1, 2});
      point("a call of the builder");
      b.WptConstraint(1, LinearVelocityDirectionConstraint{1.0});
      b.SgmtConstraint(0, 2, PointAtConstraint{Translation2d{1, 1}, 0.3});
      b.SgmtConstraint(1, 2, LinearAccelerationMaxMagnitudeConstraint{3});
      cb(9);
      break;
    case 4:
      b.SetDrivetrain(Drive(3, 1));
      b.AddBumpers({0.1, {{0, 0}}});
      b.AddBumpers({0.05, {{0.5, 0}, {-0.5, 0}}});
      point("a call of the builder");
      b.PoseWpt(0, 1, 0, 0);
      b.PoseWpt(1, 0, 1, 0);
      b.ControlIntervalCounts({1});
      b.SgmtObstacle(0, 1, Obstacle{0.2, {{5, 5}}});
      break;
    default:
      b.SetDrivetrain(Drive(2, 1));
      b.PoseWpt(0, 0, 0, 2.5);
      point("a call of the builder");
      b.PoseWpt(1, 1, 1, -2.5);  // 40 intervals
      cb(3);
      break;
  }
}

std::string Produce(int kind, void (*point)(const char*), void (*report)(int, SwerveSolution&, int64_t),
                    const std::function<void(const SwerveSolution&)>& result) {
  SwervePathBuilder b;
  Describe(b, kind, point, report);
  point("the construction of the generator");
  SwerveTrajectoryGenerator g{b, 100 + kind};
  point("the generation");
  auto e = Generate(g, result);
  point("the destruction of the generator");
  return e;
}

static void Numbers(const rsffi::HolonomicTrajectory& t, void (*number)(double)) {
  number(static_cast<double>(t.samples.size()));
  for (auto& q : t.samples) {
    for (double d : {q.timestamp, q.x, q.y, q.heading, q.velocity_x, q.velocity_y, q.angular_velocity}) number(d);
    for (double d : q.module_forces_x) number(d);
    for (double d : q.module_forces_y) number(d);
  }
}
std::string ProduceForeign(int kind, void (*point)(const char*), void (*number)(double)) {
  auto b = rsffi::swerve_path_builder_new();
  rsffi::SwerveDrivetrain d;
  d.mass = 45 + kind;
  d.moi = 6;
  for (int i = 0; i <= kind; ++i) d.modules.push_back(rsffi::SwerveModule{0.5 + i, 0.25 * i, 0.05, 70, 2.0 + kind});
  auto counts = [&](std::initializer_list<size_t> l) {
    rust::Vec<size_t> n;
    for (size_t x : l) n.push_back(x);
    point("a foreign call");
    b->set_control_interval_counts(std::move(n));
  };
  auto list = [](std::initializer_list<double> l) {
    rust::Vec<double> v;
    for (double x : l) v.push_back(x);
    return v;
  };
  auto guesses = [&](size_t from, std::initializer_list<double> l) {
    rust::Vec<rsffi::Pose2d> v;
    for (double x : l) v.push_back(rsffi::Pose2d{x, x + kind, x - 1});
    point("a foreign call");
    b->sgmt_initial_guess_points(from, std::move(v));
  };
  point("a foreign call");
  b->set_drivetrain(d);
  point("a foreign call");
  b->set_bumpers(0.5 + kind, 0.25);
  b->pose_wpt(0, 0, 0, 0.5 * kind);
  if (kind == 0) {
    b->translation_wpt(1, 1, 2, 0.5);
    counts({2});
    guesses(0, {0.5});
    point("a foreign call");
    b->sgmt_circle_obstacle(0, 1, 4, 5, 0.5);
    b->sgmt_polygon_obstacle(0, 1, list({5, 6, 6}), list({5, 5, 7}), 0.25);
  } else if (kind == 1) {
    b->empty_wpt(1, 2, 2, 0.25);
    counts({1});
    point("a foreign call");
    b->sgmt_polygon_obstacle(0, 1, list({8, 9, 9, 8}), list({5, 5, 6, 6}), 0.125);
    b->sgmt_circle_obstacle(0, 1, 7, 7, 1);
    b->wpt_point_at(1, 9, 9, 0.25);
    b->sgmt_linear_velocity_max_magnitude(0, 1, 3);
  } else {
    b->pose_wpt(2, 3, 3, 1);
    counts({1, 1});
    guesses(1, {1.5, 2.5});
    point("a foreign call");
    b->wpt_linear_velocity_direction(1, 0.75);
    b->wpt_linear_velocity_max_magnitude(2, 0);
    b->wpt_angular_velocity_max_magnitude(2, 0);
    b->wpt_linear_acceleration_max_magnitude(1, 4);
    b->sgmt_linear_velocity_direction(0, 1, 0.75);
    b->sgmt_angular_velocity_max_magnitude(0, 2, 2);
    b->sgmt_linear_acceleration_max_magnitude(1, 2, 5);
    b->sgmt_point_at(0, 2, 9, -9, 0.5);
  }
  static thread_local void (*out)(double);
  out = number;
  void (*report)(rsffi::HolonomicTrajectory, int64_t, void*) = [](rsffi::HolonomicTrajectory t, int64_t handle, void*) {
    out(static_cast<double>(handle));
    Numbers(t, out);
  };
  b->add_progress_callback(rust::Fn<void(rsffi::HolonomicTrajectory, int64_t)>::EnvMake(report, nullptr));
  point("a foreign generation");
  try {
    auto t = b->generate(kind == 1, 50 + kind);
    point("the result of a foreign generation");
    Numbers(t, number);
  } catch (const std::exception& e) {
    return e.what();
  }
  return "";
}

std::optional<SwerveTrajectoryGenerator> Prepare(int kind, int64_t handle, void (*point)(const char*),
                                                 void (*report)(int, SwerveSolution&, int64_t)) {
  SwervePathBuilder b;
  Describe(b, kind, point, report);
  return std::optional<SwerveTrajectoryGenerator>{std::in_place, b, handle};
}

std::string Generate(SwerveTrajectoryGenerator& g, const std::function<void(const SwerveSolution&)>& result) {
  auto r = g.Generate();
  if (!r.has_value()) return r.error();
  result(*r);
  return "";
}

std::vector<double> Utilities(int kind, void (*point)(const char*)) {
  std::vector<double> out;
  auto all = [&](const std::vector<double>& v) { out.insert(out.end(), v.begin(), v.end()); };
  double k = kind;
  all(Linspace(k, 3 + k, 4));
  point("an interpolation");
  all(AngleLinspace(3.0 - k, -3.0 + k, 3));
  point("an index");
  std::vector<size_t> N{2, static_cast<size_t>(kind + 1), 3};
  for (size_t w = 0; w < 4; ++w)
    for (size_t s = 0; w > 0 && s < N[w - 1]; ++s) out.push_back(static_cast<double>(GetIndex(N, w, s)));
  point("a trajectory");
  SwerveSolution s;
  s.dt = {0.1 + k, 0.2};
  s.x = {1, 2, 3 + k};
  s.y = {4, 5, 6};
  s.thetacos = {1, 0, std::cos(k)};
  s.thetasin = {0, 1, std::sin(k)};
  s.vx = s.vy = s.omega = s.ax = s.ay = s.alpha = {k, k + 1, k + 2};
  s.moduleFX = s.moduleFY = {{1, 2}, {3, 4}, {5, k}};
  HolonomicTrajectory t{s};
  point("a copy of a trajectory");
  HolonomicTrajectory u{t.samples};
  for (auto& q : u.samples) {
    for (double d : {q.timestamp, q.x, q.y, q.heading, q.velocityX, q.velocityY, q.angularVelocity}) out.push_back(d);
    all(q.moduleForcesX);
    all(q.moduleForcesY);
  }
  expected<SwerveSolution, std::string> e{s};
  expected<SwerveSolution, std::string> f{unexpect, "none"};
  point("a swap");
  e.swap(f);
  out.push_back(e.has_value());
  out.push_back(f.has_value() ? f->x[2] : -1);
  f = e;
  out.push_back(static_cast<double>(f.error().size()));
  return out;
}

}  // namespace c14
