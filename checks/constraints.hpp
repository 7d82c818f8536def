// The constraint types, with reference semantics written from their docs.
#pragma once

#include "checks/common.hpp"

namespace tp {

enum Kind { kPose, kTrans, kLinVel, kLinDir, kAngVel, kLinAcc, kPointAt, kPointPoint, kLinePoint, kPointLine, kKinds };
inline const char* KindName(int k) {
  static const char* n[] = {"pose", "translation", "linear velocity max", "linear velocity direction", "angular velocity max",
                            "linear acceleration max", "point at", "point-point", "line-point", "point-line"};
  return n[k];
}

struct Con {
  int kind = 0;
  double a[8] = {};

  trajopt::Constraint Make() const {
    using namespace trajopt;
    switch (kind) {
      case kPose: return PoseEqualityConstraint{a[0], a[1], a[2]};
      case kTrans: return TranslationEqualityConstraint{a[0], a[1]};
      case kLinVel: return LinearVelocityMaxMagnitudeConstraint{a[0]};
      case kLinDir: return LinearVelocityDirectionConstraint{a[0]};
      case kAngVel: return AngularVelocityMaxMagnitudeConstraint{a[0]};
      case kLinAcc: return LinearAccelerationMaxMagnitudeConstraint{a[0]};
      case kPointAt: return PointAtConstraint{Translation2d{a[0], a[1]}, a[2]};
      case kPointPoint: return PointPointConstraint{Translation2d{a[0], a[1]}, Translation2d{a[2], a[3]}, a[4]};
      case kLinePoint:
        return LinePointConstraint{Translation2d{a[0], a[1]}, Translation2d{a[2], a[3]}, Translation2d{a[4], a[5]}, a[6]};
      default:
        return PointLineConstraint{Translation2d{a[0], a[1]}, Translation2d{a[2], a[3]}, Translation2d{a[4], a[5]}, a[6]};
    }
  }

  std::string Text() const {
    return mc::fmt("%s(%g,%g,%g,%g,%g,%g,%g)", KindName(kind), a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
  }

  static double SegDist(double ax, double ay, double bx, double by, double px, double py) {
    double lx = bx - ax, ly = by - ay;
    double t = ((px - ax) * lx + (py - ay) * ly) / (lx * lx + ly * ly);
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    return hypot(ax + t * lx - px, ay + t * ly - py);
  }

  /// Amount by which a state misses the constraint (<= 0: holds); NAN: the
  /// documentation leaves it open.
  double Miss(const Sample& q) const {
    auto fieldX = [&](double rx, double ry) { return q.x + rx * q.c - ry * q.s; };
    auto fieldY = [&](double rx, double ry) { return q.y + rx * q.s + ry * q.c; };
    switch (kind) {
      case kPose: {
        double same = std::max(std::abs(q.c - cos(a[2])), std::abs(q.s - sin(a[2])));
        double opp = std::max(std::abs(q.c + cos(a[2])), std::abs(q.s + sin(a[2])));
        double pos = std::max(std::abs(q.x - a[0]), std::abs(q.y - a[1]));
        if (opp < 1e-3 && pos < 1e-3) return NAN;  // a heading's antipode is also admitted
        return std::max(pos, same);
      }
      case kTrans: return std::max(std::abs(q.x - a[0]), std::abs(q.y - a[1]));
      case kLinVel: return hypot(q.vx, q.vy) - a[0];
      case kLinDir: {
        double cross = q.vx * sin(a[0]) - q.vy * cos(a[0]);
        double dot = q.vx * cos(a[0]) + q.vy * sin(a[0]);
        if (dot < -1e-9 && std::abs(cross) < 1e-3) return NAN;  // driving backwards along the direction
        return std::abs(cross);
      }
      case kAngVel: return std::abs(q.w) - a[0];
      case kLinAcc: return hypot(q.ax, q.ay) - a[0];
      case kPointAt: {
        double dx = a[0] - q.x, dy = a[1] - q.y;
        if (hypot(dx, dy) < 1e-9) return NAN;
        double ang = std::abs(atan2(q.c * dy - q.s * dx, q.c * dx + q.s * dy));
        return ang - a[2];
      }
      case kPointPoint: return a[4] - hypot(fieldX(a[0], a[1]) - a[2], fieldY(a[0], a[1]) - a[3]);
      case kLinePoint:
        return a[6] - SegDist(fieldX(a[0], a[1]), fieldY(a[0], a[1]), fieldX(a[2], a[3]), fieldY(a[2], a[3]), a[4], a[5]);
      default: return a[6] - SegDist(a[2], a[3], a[4], a[5], fieldX(a[0], a[1]), fieldY(a[0], a[1]));
    }
  }
};

/// Turns a miss into a violation measure for Compare().
inline double Viol(double miss) { return miss <= 1e-9 ? 0.0 : miss; }

}  // namespace tp
