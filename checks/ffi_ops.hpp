// The calls of the foreign-function interface, and what each of them means in
// terms of the C++ interface.
#pragma once

#include "checks/outcome.hpp"
#include "trajopt/constraint/AngularVelocityMaxMagnitudeConstraint.hpp"
#include "trajopt/constraint/LinearAccelerationMaxMagnitudeConstraint.hpp"
#include "trajopt/constraint/LinearVelocityDirectionConstraint.hpp"
#include "trajopt/constraint/LinearVelocityMaxMagnitudeConstraint.hpp"
#include "trajopt/constraint/PointAtConstraint.hpp"
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
#include "trajopt/util/Cancellation.hpp"
#include "trajoptlib/src/lib.rs.h"

namespace ffi {

using trajopt::rsffi::HolonomicTrajectory;

// (the numbers are those of checks/rust_shim.rs)
enum Op {
  kDrivetrain, kBumpers, kCounts, kPose, kTranslation, kEmpty, kGuesses, kWptVelDir, kWptVelMax, kWptAngVel, kWptAccel, kWptPointAt,
  kSgmtVelDir, kSgmtVelMax, kSgmtAngVel, kSgmtAccel, kSgmtPointAt, kCircle, kPolygon, kCallback, kOps
};
inline const char* Name(int op) {
  static const char* names[] = {"set_drivetrain", "set_bumpers", "set_control_interval_counts", "pose_wpt", "translation_wpt",
    "empty_wpt", "sgmt_initial_guess_points", "wpt_linear_velocity_direction", "wpt_linear_velocity_max_magnitude",
    "wpt_angular_velocity_max_magnitude", "wpt_linear_acceleration_max_magnitude", "wpt_point_at", "sgmt_linear_velocity_direction",
    "sgmt_linear_velocity_max_magnitude", "sgmt_angular_velocity_max_magnitude", "sgmt_linear_acceleration_max_magnitude",
    "sgmt_point_at", "sgmt_circle_obstacle", "sgmt_polygon_obstacle", "add_progress_callback"};
  return names[op];
}
/// Number of floating-point arguments where it is fixed, of indices.
inline int Numbers(int op) {
  static const int n[] = {-1, 2, 0, 3, 3, 3, -1, 1, 1, 1, 1, 3, 1, 1, 1, 1, 3, 3, -1, 0};
  return n[op];
}
inline int Indices(int op) {
  static const int n[] = {0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 0};
  return n[op];
}

struct Call {
  int op = 0;
  size_t i = 0, j = 0;             // waypoints; the callback's number
  std::vector<double> x, y;        // numbers (set_drivetrain: mass, moi, modules; polygon: radius, xs | ys)
  std::vector<size_t> n;           // counts
  std::string Show() const {
    std::string s = Name(op);
    s += "(";
    if (Indices(op) > 0) s += std::to_string(i) + ", ";
    if (Indices(op) > 1) s += std::to_string(j) + ", ";
    for (double d : x) s += mc::fmt("%.17g, ", d);
    if (op == kPolygon) {
      s += "| ";
      for (double d : y) s += mc::fmt("%.17g, ", d);
    }
    for (size_t k : n) s += std::to_string(k) + ", ";
    if (op == kCallback) s += std::to_string(i);
    if (s.ends_with(", ")) s.resize(s.size() - 2);
    return s + ")";
  }
};

inline std::vector<double> Flat(const std::vector<trajopt::HolonomicTrajectorySample>& samples) {
  std::vector<double> v{static_cast<double>(samples.size())};
  for (auto& s : samples) {
    for (double d : {s.timestamp, s.x, s.y, s.heading, s.velocityX, s.velocityY, s.angularVelocity}) v.push_back(d);
    for (auto* f : {&s.moduleForcesX, &s.moduleForcesY}) {
      v.push_back(static_cast<double>(f->size()));
      v.insert(v.end(), f->begin(), f->end());
    }
  }
  return v;
}
inline std::vector<double> Flat(const HolonomicTrajectory& t) {
  std::vector<double> v{static_cast<double>(t.samples.size())};
  for (auto& s : t.samples) {
    for (double d : {s.timestamp, s.x, s.y, s.heading, s.velocity_x, s.velocity_y, s.angular_velocity}) v.push_back(d);
    for (auto* f : {&s.module_forces_x, &s.module_forces_y}) {
      v.push_back(static_cast<double>(f->size()));
      v.insert(v.end(), f->begin(), f->end());
    }
  }
  return v;
}
/// A trajectory from the solver's solution, as its documentation says.
inline std::vector<double> Expected(const trajopt::SwerveSolution& s) {
  std::vector<trajopt::HolonomicTrajectorySample> out;
  double ts = 0;
  for (size_t k = 0; k < s.x.size(); ++k) {
    trajopt::HolonomicTrajectorySample q;
    q.timestamp = ts;
    q.x = s.x[k];
    q.y = s.y[k];
    q.heading = std::atan2(s.thetasin[k], s.thetacos[k]);
    q.velocityX = s.vx[k];
    q.velocityY = s.vy[k];
    q.angularVelocity = s.omega[k];
    q.moduleForcesX = s.moduleFX[k];
    q.moduleForcesY = s.moduleFY[k];
    out.push_back(q);
    if (k < s.dt.size()) ts += s.dt[k];
  }
  return Flat(out);
}

/// What a user sees of a progress report or a result.
struct Event {
  int which;  // callback; -1: result
  int64_t handle;
  std::vector<double> v;
  std::string error;
};
inline std::vector<Event>& Events() {
  static std::vector<Event> e;
  return e;
}

/// The C++ interface, used as the documentation of the foreign one says.
struct Cpp {
  static const char* Who() { return "C++"; }
  trajopt::SwervePathBuilder b;
  void Do(const Call& c) {
    using namespace trajopt;
    auto& x = c.x;
    switch (c.op) {
      case kDrivetrain: {
        SwerveDrivetrain d{x[0], x[1], {}};
        for (size_t k = 2; k < x.size(); k += 5) d.modules.push_back({{x[k], x[k + 1]}, x[k + 2], x[k + 3], x[k + 4]});
        b.SetDrivetrain(d);
        break;
      }
      case kBumpers: {
        double l = x[0] / 2, w = x[1] / 2;
        b.AddBumpers({0.01, {{l, w}, {-l, w}, {-l, -w}, {l, -w}}});
        break;
      }
      case kCounts: {
        auto n = c.n;
        b.ControlIntervalCounts(std::move(n));
        break;
      }
      case kPose: b.PoseWpt(c.i, x[0], x[1], x[2]); break;
      case kTranslation: b.TranslationWpt(c.i, x[0], x[1], x[2]); break;
      case kEmpty: b.WptInitialGuessPoint(c.i, {x[0], x[1], {x[2]}}); break;
      case kGuesses: {
        std::vector<Pose2d> g;
        for (size_t k = 0; k + 2 < x.size(); k += 3) g.push_back({x[k], x[k + 1], {x[k + 2]}});
        b.SgmtInitialGuessPoints(c.i, g);
        break;
      }
      case kWptVelDir: b.WptConstraint(c.i, LinearVelocityDirectionConstraint{x[0]}); break;
      case kWptVelMax: b.WptConstraint(c.i, LinearVelocityMaxMagnitudeConstraint{x[0]}); break;
      case kWptAngVel: b.WptConstraint(c.i, AngularVelocityMaxMagnitudeConstraint{x[0]}); break;
      case kWptAccel: b.WptConstraint(c.i, LinearAccelerationMaxMagnitudeConstraint{x[0]}); break;
      case kWptPointAt: b.WptConstraint(c.i, PointAtConstraint{{x[0], x[1]}, x[2]}); break;
      case kSgmtVelDir: b.SgmtConstraint(c.i, c.j, LinearVelocityDirectionConstraint{x[0]}); break;
      case kSgmtVelMax: b.SgmtConstraint(c.i, c.j, LinearVelocityMaxMagnitudeConstraint{x[0]}); break;
      case kSgmtAngVel: b.SgmtConstraint(c.i, c.j, AngularVelocityMaxMagnitudeConstraint{x[0]}); break;
      case kSgmtAccel: b.SgmtConstraint(c.i, c.j, LinearAccelerationMaxMagnitudeConstraint{x[0]}); break;
      case kSgmtPointAt: b.SgmtConstraint(c.i, c.j, PointAtConstraint{{x[0], x[1]}, x[2]}); break;
      case kCircle: b.SgmtObstacle(c.i, c.j, {x[2], {{x[0], x[1]}}}); break;
      case kPolygon: {
        if (x.size() - 1 != c.y.size()) break;  // ignored
        Obstacle o{x[0], {}};
        for (size_t k = 0; k < c.y.size(); ++k) o.points.push_back({x[k + 1], c.y[k]});
        b.SgmtObstacle(c.i, c.j, o);
        break;
      }
      case kCallback: {
        int which = static_cast<int>(c.i);
        b.AddIntermediateCallback([which](SwerveSolution& s, int64_t handle) { Events().push_back({which, handle, Expected(s), ""}); });
        break;
      }
    }
  }
  void Generate(bool diagnostics, int64_t handle) {
    trajopt::SwerveTrajectoryGenerator g{b, handle};
    try {
      auto r = g.Generate(diagnostics);
      if (r.has_value()) {
        Events().push_back({-1, 0, Expected(r.value()), ""});
      } else {
        Events().push_back({-1, 0, {}, r.error()});
      }
    } catch (const std::exception& x) {
      Events().push_back({-1, 0, {}, x.what()});
    }
  }
  static void Cancel() { trajopt::GetCancellationFlag() = 1; }
};

/// The C++ side of the foreign interface.
struct Native {
  static const char* Who() { return "the foreign-function interface"; }
  std::unique_ptr<trajopt::rsffi::SwervePathBuilder> b = trajopt::rsffi::swerve_path_builder_new();
  template <int W>
  static void Report(HolonomicTrajectory t, int64_t handle, void*) {
    Events().push_back({W, handle, Flat(t), ""});
  }
  void Do(const Call& c) {
    using namespace trajopt::rsffi;
    auto& x = c.x;
    auto vec = [](const std::vector<double>& v, size_t from) {
      rust::Vec<double> r;
      for (size_t k = from; k < v.size(); ++k) r.push_back(v[k]);
      return r;
    };
    switch (c.op) {
      case kDrivetrain: {
        SwerveDrivetrain d{x[0], x[1], {}};
        for (size_t k = 2; k < x.size(); k += 5) d.modules.push_back(SwerveModule{x[k], x[k + 1], x[k + 2], x[k + 3], x[k + 4]});
        b->set_drivetrain(d);
        break;
      }
      case kBumpers: b->set_bumpers(x[0], x[1]); break;
      case kCounts: {
        rust::Vec<size_t> n;
        for (auto k : c.n) n.push_back(k);
        b->set_control_interval_counts(std::move(n));
        break;
      }
      case kPose: b->pose_wpt(c.i, x[0], x[1], x[2]); break;
      case kTranslation: b->translation_wpt(c.i, x[0], x[1], x[2]); break;
      case kEmpty: b->empty_wpt(c.i, x[0], x[1], x[2]); break;
      case kGuesses: {
        rust::Vec<trajopt::rsffi::Pose2d> g;
        for (size_t k = 0; k + 2 < x.size(); k += 3) g.push_back(trajopt::rsffi::Pose2d{x[k], x[k + 1], x[k + 2]});
        b->sgmt_initial_guess_points(c.i, g);
        break;
      }
      case kWptVelDir: b->wpt_linear_velocity_direction(c.i, x[0]); break;
      case kWptVelMax: b->wpt_linear_velocity_max_magnitude(c.i, x[0]); break;
      case kWptAngVel: b->wpt_angular_velocity_max_magnitude(c.i, x[0]); break;
      case kWptAccel: b->wpt_linear_acceleration_max_magnitude(c.i, x[0]); break;
      case kWptPointAt: b->wpt_point_at(c.i, x[0], x[1], x[2]); break;
      case kSgmtVelDir: b->sgmt_linear_velocity_direction(c.i, c.j, x[0]); break;
      case kSgmtVelMax: b->sgmt_linear_velocity_max_magnitude(c.i, c.j, x[0]); break;
      case kSgmtAngVel: b->sgmt_angular_velocity_max_magnitude(c.i, c.j, x[0]); break;
      case kSgmtAccel: b->sgmt_linear_acceleration_max_magnitude(c.i, c.j, x[0]); break;
      case kSgmtPointAt: b->sgmt_point_at(c.i, c.j, x[0], x[1], x[2]); break;
      case kCircle: b->sgmt_circle_obstacle(c.i, c.j, x[0], x[1], x[2]); break;
      case kPolygon: b->sgmt_polygon_obstacle(c.i, c.j, vec(x, 1), vec(c.y, 0), x[0]); break;
      case kCallback: {
        using F = rust::Fn<void(HolonomicTrajectory, int64_t)>;
        b->add_progress_callback(c.i == 0 ? F::EnvMake(&Report<0>, nullptr) : c.i == 1 ? F::EnvMake(&Report<1>, nullptr) : F::EnvMake(&Report<2>, nullptr));
        break;
      }
    }
  }
  void Generate(bool diagnostics, int64_t handle) {
    try {
      Events().push_back({-1, 0, Flat(b->generate(diagnostics, handle)), ""});
    } catch (const std::exception& x) {
      Events().push_back({-1, 0, {}, x.what()});
    }
  }
  static void Cancel() { trajopt::rsffi::cancel_all(); }
};

// Calls with arguments ---------------------------------------------------------

/// Robot k of a few: every parameter differs and needs double precision.
inline Call Robot(int k) {
  Call c{kDrivetrain};
  c.x = {45.1234567890123 + k, 6.9876543210987 + k};
  int modules = k == 0 ? 2 : k == 1 ? 4 : k == 2 ? 1 : 0;
  for (int m = 0; m < modules; ++m) {
    double f = m + 0.1 * k;
    for (double d : {0.61 + 0.1 / 3 * f, (m % 2 == 0 ? 1 : -1) * (0.52 + 0.1 / 7 * f), 0.04 + f / 99, 70.1 + f / 3, 2.05 + f / 7}) c.x.push_back(d);
  }
  return c;
}

/// The three fixed-size argument lists of an operation: numbers that all differ,
/// numbers that need every bit, and zeros and negative numbers.
inline std::vector<double> Args(int op, int flavour) {
  static const double a[3][3] = {{1.25, 2.5, 0.375}, {1.0 / 3, 2e-9 + 1.0 / 7, 0.1 + 1e-13}, {-0.75, 1e3 + 1.0 / 9, 1e-7 / 3}};
  std::vector<double> v;
  for (int k = 0; k < Numbers(op); ++k) v.push_back(a[flavour][k]);
  bool magnitude = op == kWptVelMax || op == kWptAccel || op == kWptAngVel || op == kSgmtVelMax || op == kSgmtAccel || op == kSgmtAngVel;
  if (magnitude || op == kBumpers) v[0] = std::abs(v[0]);
  if (flavour == 2 && magnitude) v[0] = 0;
  return v;
}
inline Call Polygon(size_t from, size_t to, size_t nx, size_t ny, int flavour) {
  static const double px[] = {3.1, 5.0 / 3, 2.2, 4.4}, py[] = {-1.0 / 7, 0.9, 2.3, 3.7};
  Call c{kPolygon, from, to};
  c.x.push_back(0.25 + flavour / 3.0);
  for (size_t k = 0; k < nx; ++k) c.x.push_back(px[k]);
  for (size_t k = 0; k < ny; ++k) c.y.push_back(py[k]);
  return c;
}

}  // namespace ffi
