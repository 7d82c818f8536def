// C24: every valid path yields a well-posed, finite optimisation problem.
#include "checks/constraints.hpp"
#include "trajopt/constraint/detail/LinePointDistance.hpp"

namespace {

using namespace tp;
using trajopt::Bumpers;
using trajopt::Obstacle;

const char* kRobots[] = {"square", "one module at the centre", "one module off centre", "all modules at one place", "modules in a row",
                         "eight modules", "distinct modules", "modules almost in one place", "tiny", "huge", "a wheel that does not turn",
                         "a wheel without torque", "no moment of inertia", "forty modules", "hardly turning", "turning very fast", "no wheel turns"};
constexpr int kRobotKinds = 17;
SwerveDrivetrain Robot(int kind) {
  auto mod = [](double x, double y) { return SwerveModule{{x, y}, 0.05, 80, 2}; };
  switch (kind) {
    case 0: return {45, 6, {mod(0.3, 0.3), mod(0.3, -0.3), mod(-0.3, 0.3), mod(-0.3, -0.3)}};
    case 1: return {45, 6, {mod(0, 0)}};
    case 2: return {45, 6, {mod(0.5, -0.2)}};
    case 3: return {45, 6, {mod(0.5, 0.2), mod(0.5, 0.2), mod(0.5, 0.2)}};
    case 4: return {45, 6, {mod(0.5, 0), mod(0, 0), mod(-0.5, 0)}};
    case 5: {
      SwerveDrivetrain d{60, 9, {}};
      for (int i = 0; i < 8; ++i) d.modules.push_back(mod(cos(0.7 * i), sin(0.7 * i)));
      return d;
    }
    case 6: return {30, 2, {{{0.4, 0.1}, 0.04, 90, 1}, {{-0.2, 0.5}, 0.06, 50, 3}, {{-0.3, -0.6}, 0.1, 20, 7}}};
    case 7: return {45, 6, {mod(0.3, 0.3), mod(0.3 + 1e-12, 0.3)}};
    case 8: return {1e-3, 1e-6, {{{1e-3, 1e-3}, 1e-4, 10, 1e-6}, {{-1e-3, -1e-3}, 1e-4, 10, 1e-6}}};
    case 10: return {45, 6, {mod(0.3, 0.3), {{-0.3, 0.3}, 0.05, 0, 2}, mod(0.3, -0.3)}};
    case 11: return {45, 6, {mod(0.3, 0.3), {{-0.3, 0.3}, 0.05, 80, 0}, mod(0.3, -0.3)}};
    case 12: return {45, 0, {mod(0.3, 0.3), mod(-0.3, 0.3)}};
    case 13: {
      SwerveDrivetrain d{60, 9, {}};
      for (int i = 0; i < 40; ++i) d.modules.push_back(mod(cos(0.15 * i), sin(0.15 * i)));
      return d;
    }
    case 14: return {45, 6, {{{0.3, 0.3}, 0.05, 1e-12, 2}, mod(0.3, -0.3)}};
    case 15: return {45, 6, {{{0.3, 0.3}, 0.05, 1e14, 1e14}, mod(0.3, -0.3)}};
    case 16: return {45, 6, {{{0.3, 0.3}, 0.05, 0, 0}, {{-0.3, 0.3}, 0.05, 0, 0}}};
    default: return {1e6, 1e7, {{{50, 30}, 2, 100, 1e8}, {{-50, -30}, 2, 100, 1e8}}};
  }
}

struct P {
  double x, y, th;
};
const P kPoses[] = {{0, 0, 0}, {1, -1, 3}, {1, 1, -std::numbers::pi}, {-1e6, 2e6, 1e3}, {1e-9, -1e-9, 1e-9}, {4, 4, 0}, {5, 4, 0.5}};

// Judged in addition (by C27).
#ifdef CHECK_DERIVATIVES
void Further(Problem& p, const FieldMap& m, const std::string& what);
#else
void Further(Problem&, const FieldMap&, const std::string&) {}
#endif

// Field points of the path's point-at constraints.
[[maybe_unused]] std::vector<std::pair<double, double>> g_pointAt;

void Judge(Problem& p, const FieldMap& m, const std::string& what) {
  MC_CHECK(p.hasCost, "%s: the problem has no objective", what.c_str());
  MC_CHECK(!p.tape.foreign, "%s: the problem mentions variables the solver does not control", what.c_str());
  for (size_t i = 0; i < p.nvar; ++i) MC_CHECK(std::isfinite(p.init[i]), "%s: a decision variable starts at %g", what.c_str(), p.init[i]);
  auto& v = p.tape.Eval(p.init);
  for (size_t i = 0; i < v.size(); ++i)
    MC_CHECK(std::isfinite(v[i]), "%s: %s %zu starts at %g", what.c_str(),
             i < p.nEq ? "equality constraint" : i < p.nEq + p.nIneq ? "inequality constraint" : "the objective", i, v[i]);
  Further(p, m, what);
}

// Runs the generator; everything must be finite when the solver is invoked.
void Check(SwervePathBuilder& b, const std::vector<size_t>& N, size_t modules, const std::string& what) {
  mc::op();
  MC_LOG("  %s", what.c_str());
  mc::state(mc::Hash{}.add(what));
  try {
    SwerveTrajectoryGenerator g{b};
    FieldMap m;
    auto p = Capture(g, m, N, modules);
    Judge(p, m, what);
  } catch (const mc::Violation&) {
    throw;
  } catch (const mc::Prune&) {
    throw;
  } catch (const std::exception& x) {
    mc::fail("%s: the generator failed: %s", what.c_str(), x.what());
  }
}

Con Zero(int kind) {
  switch (kind) {
    case kPose: return {kPose, {0, 0, 0}};
    case kTrans: return {kTrans, {0, 0}};
    case kLinVel: return {kLinVel, {0}};
    case kLinDir: return {kLinDir, {0}};
    case kAngVel: return {kAngVel, {0}};
    case kLinAcc: return {kLinAcc, {0}};
    case kPointAt: return {kPointAt, {0, 0, 0}};
    case kPointPoint: return {kPointPoint, {0, 0, 0, 0, 0}};
    case kLinePoint: return {kLinePoint, {0, 0, 1, 0, 0, 0, 0}};
    default: return {kPointLine, {0, 0, 0, 0, 1, 0, 0}};
  }
}
Con Usual(int kind) {
  switch (kind) {
    case kPose: return {kPose, {1, -0.5, 7}};
    case kTrans: return {kTrans, {1, -0.5}};
    case kLinVel: return {kLinVel, {1.5}};
    case kLinDir: return {kLinDir, {-2.5}};
    case kAngVel: return {kAngVel, {0.75}};
    case kLinAcc: return {kLinAcc, {2.0}};
    case kPointAt: return {kPointAt, {4, 4, 0.3}};
    case kPointPoint: return {kPointPoint, {0.25, 0, 4, 4, 2.0}};
    case kLinePoint: return {kLinePoint, {0.5, 0.5, -0.5, 0.5, 4, 4, 2.0}};
    default: return {kPointLine, {0.25, 0, 4, 4, 6, 4, 2.0}};
  }
}

// Every robot x layout.
void Layouts() {
  g_pointAt.clear();
  int robot = mc::choose(kRobotKinds, "robot");
  size_t segs = static_cast<size_t>(mc::choose(4, "segments"));
  std::vector<size_t> N;
  static const std::vector<size_t> some{1, 2, 5}, all{1, 2, 3, 40};
  SwervePathBuilder b;
  auto d = Robot(robot);
  bool first = mc::flip("the robot is set first");
  if (first) b.SetDrivetrain(d);
  for (size_t i = 0; i <= segs; ++i) {
    if (i > 0) N.push_back(mc::pick(mc::thorough() ? all : some, "intervals"));
    auto& p = kPoses[(i * 3 + N.size()) % 7];
    if (i % 2 == 0) b.PoseWpt(i, p.x, p.y, p.th);
    else b.TranslationWpt(i, p.x, p.y, p.th);
  }
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  if (!first) b.SetDrivetrain(d);
  Check(b, N, d.modules.size(), mc::fmt("%s, layout %s%s", kRobots[robot], Show(N).c_str(), first ? "" : ", robot set last"));
}

// Every constraint x placement x guesses, including guesses at the singular
// places of the constraint.
void Constraints() {
  int kind = mc::choose(kKinds, "constraint");
  bool zero = mc::flip("parameters all zero");
  auto con = zero ? Zero(kind) : Usual(kind);
  size_t wpts = static_cast<size_t>(mc::choose(3, "waypoints, less one")) + 1;
  size_t from = static_cast<size_t>(mc::choose(static_cast<int>(wpts), "from"));
  size_t to = from + static_cast<size_t>(mc::choose(static_cast<int>(wpts - from), "to, less from"));
  std::vector<size_t> N;
  SwervePathBuilder b;
  auto d = Robot(0);
  b.SetDrivetrain(d);
  std::string what = mc::fmt("%s on %zu..%zu", con.Text().c_str(), from, to);
  for (size_t i = 0; i < wpts; ++i) {
    if (i > 0) N.push_back(mc::choose(2, "intervals") == 0 ? 1 : 3);
    auto& p = kPoses[mc::choose(mc::thorough() ? 7 : wpts > 2 ? 3 : 7, "guess")];
    b.WptInitialGuessPoint(i, {p.x, p.y, {p.th}});
    what += mc::fmt(", guess (%g, %g, %g)", p.x, p.y, p.th);
  }
  what += " of " + Show(N);
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  if (from == to) b.WptConstraint(from, con.Make());
  else b.SgmtConstraint(from, to, con.Make());
  g_pointAt.clear();
  if (kind == kPointAt) g_pointAt.assign(1, {con.a[0], con.a[1]});
  Check(b, N, d.modules.size(), what);
}

// Parameters of every size, guesses of every size.
void Magnitudes() {
  int kind = mc::choose(kKinds, "constraint");
  static const double sizes[] = {1e-12, 1e-9, 1e-6, 1e-3, 0.01, 1, 30, 1e3, 1e6, 1e9};
  double size = mc::pick(sizes, "size of the parameters");
  static const double guesses[] = {0, 1e-12, 1e-6, 1, 1e6};
  double g = mc::pick(guesses, "size of the guess");
  int same = mc::choose(2, "guess on the constrained point");
  static const int robots[] = {0, 2, 6, 8, 9, 10, 13};
  int robot = mc::pick(robots, "robot");
  // (a line on the robot whose ends are one place on the field, but for rounding, is no line)
  if (kind == kLinePoint && size < 1e-6 && g > 1) throw mc::Prune{};
  auto con = Usual(kind);
  int numbers = kind == kPointPoint ? 5 : kind >= kLinePoint ? 7 : kind == kPose || kind == kPointAt ? 3 : kind == kTrans ? 2 : 1;
  for (int i = 0; i < numbers; ++i) con.a[i] *= size;
  if (kind == kPointAt) con.a[2] = std::min(con.a[2], 3.0);
  SwervePathBuilder b;
  auto d = Robot(robot);
  b.SetDrivetrain(d);
  double x = same ? con.a[kind <= kTrans || kind == kPointAt ? 0 : 2] : g, y = same ? con.a[kind <= kTrans || kind == kPointAt ? 1 : 3] : -g;
  b.WptInitialGuessPoint(0, {x, y, {g}});
  b.WptInitialGuessPoint(1, {x + g, y, {-g}});
  b.ControlIntervalCounts({2});
  b.SgmtConstraint(0, 1, con.Make());
  b.WptConstraint(1, con.Make());
  g_pointAt.clear();
  if (kind == kPointAt) g_pointAt.assign(2, {con.a[0], con.a[1]});
  Check(b, {2}, d.modules.size(), mc::fmt("%s, %s, guesses (%g, %g), (%g, %g)", kRobots[robot], con.Text().c_str(), x, y, x + g, y));
}

// Every shape of bumper x obstacle x guess, including the robot on top of the
// obstacle and corners that coincide.
void Obstacles() {
  g_pointAt.clear();
  static const std::vector<Translation2d> shapes[] = {
      {{0, 0}}, {{4, 4}}, {{0.5, 0}, {-0.5, 0}}, {{0, 0}, {1, 0}, {0, 1}}, {{4, 4}, {5, 4}, {5, 5}, {4, 5}}, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}, {0.7, 0}}};
  int nb = mc::choose(3, "bumpers");
  SwervePathBuilder b;
  auto d = Robot(0);
  b.SetDrivetrain(d);
  std::string what;
  for (int i = 0; i < nb; ++i) {
    int s = mc::choose(mc::thorough() || i == 0 ? 6 : 2, "shape of the bumper");
    b.AddBumpers(Bumpers{i == 0 ? 0.0 : 0.1, shapes[s]});
    what += mc::fmt("bumper %d, ", s);
  }
  int s = mc::choose(6, "shape of the obstacle");
  bool span = mc::flip("on the segment");
  double r = mc::choose(2, "radius") * 0.75;
  int at = mc::choose(7, "first guess"), to = mc::choose(mc::thorough() ? 7 : 2, "second guess");
  b.WptInitialGuessPoint(0, {kPoses[at].x, kPoses[at].y, {kPoses[at].th}});
  b.WptInitialGuessPoint(1, {kPoses[to].x, kPoses[to].y, {kPoses[to].th}});
  b.ControlIntervalCounts({3});
  Obstacle o{r, shapes[s]};
  if (span) b.SgmtObstacle(0, 1, o);
  else b.WptObstacle(1, o);
  Check(b, {3}, d.modules.size(), what + mc::fmt("obstacle %d of radius %g %s, guesses %d to %d", s, r, span ? "on the segment" : "on waypoint 1", at, to));
}

// Guess points: any number of them, also more than the segment has intervals,
// repeated ones, and waypoints nobody gave a guess.
void Guesses() {
  g_pointAt.clear();
  SwervePathBuilder b;
  int robot = mc::choose(2, "robot") * 2;
  auto d = Robot(robot);
  b.SetDrivetrain(d);
  size_t segs = static_cast<size_t>(mc::choose(2, "segments, less one")) + 1;
  std::vector<size_t> N;
  std::string what = kRobots[robot];
  for (size_t s = 0; s < segs; ++s) {
    N.push_back(static_cast<size_t>(mc::choose(4, "intervals, less one")) + 1);
    int points = mc::choose(segs == 1 || mc::thorough() ? 7 : 4, "points");
    bool equal = mc::flip("all equal");
    std::vector<trajopt::Pose2d> pts;
    for (int i = 0; i < points; ++i) {
      auto& p = kPoses[equal ? 0 : (i + 1) % 7];
      pts.push_back({p.x, p.y, {p.th}});
    }
    b.SgmtInitialGuessPoints(s, pts);
    if (mc::flip("the waypoint has a guess")) b.WptInitialGuessPoint(s + 1, {2, 3, {1}});
    what += mc::fmt(", %zu intervals through %d %spoints", N.back(), points, equal ? "equal " : "");
  }
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  Check(b, N, d.modules.size(), what);
}

// Sequences of requests on one path: everything at once.
void Mixtures() {
  SwervePathBuilder b;
  auto d = Robot(6);
  b.SetDrivetrain(d);
  std::string what;
  size_t wpts = 1;
  b.PoseWpt(0, 0, 0, 0);
  b.AddBumpers(Bumpers{0.01, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
  int depth = mc::thorough() ? 4 : 3;
  g_pointAt.clear();
  for (int k = 0; k < depth; ++k) {
    int o = mc::choose(9, "request");
    what += mc::fmt("%d ", o);
    auto need = [&](size_t n) { wpts = std::max(wpts, n); };
    switch (o) {
      case 0: need(2); b.TranslationWpt(1, 1, 1, 0.5); break;
      case 1: need(3); b.PoseWpt(2, 4, 4, 2.5); break;
      case 2: need(2); b.SgmtInitialGuessPoints(0, {{0.5, 0.25, {0.25}}, {1, 0.25, {5}}}); break;
      case 3: need(3); b.SgmtConstraint(0, 2, Usual(kPointAt).Make()); g_pointAt.emplace_back(4, 4); break;
      case 4: need(2); b.WptConstraint(1, Zero(kLinVel).Make()); break;
      case 5: need(3); b.SgmtObstacle(1, 2, Obstacle{0.2, {{4, 4}}}); break;
      case 6: need(1); b.WptObstacle(0, Obstacle{0.2, {{0, 0}, {1, 1}, {2, 0}}}); break;
      case 7: need(4); b.WptInitialGuessPoint(3, {-1e6, 2e6, {1e3}}); break;
      default: {
        std::vector<size_t> c;
        for (size_t i = 0; i + 1 < wpts; ++i) c.push_back(2 + i);
        b.ControlIntervalCounts(std::move(c));
      }
    }
  }
  auto N = b.GetControlIntervalCounts();
  MC_CHECK(N.size() + 1 == wpts, "requests %s: %zu counts for %zu waypoints", what.c_str(), N.size(), wpts);
  Check(b, N, d.modules.size(), "requests " + what);
}

// Whatever else the path, the builder and the generator are given.
void Company() {
  g_pointAt.clear();
  static const int robots[] = {6, 10, 0, 2};
  int robot = robots[mc::choose(mc::thorough() ? 4 : 2, "robot")];
  auto d = Robot(robot);
  static const std::vector<std::vector<size_t>> layouts{{1}, {3}, {2, 1}, {1, 1, 4}};
  auto& N = mc::pick(layouts, "layout");
  int kind = mc::choose(kKinds + 1, "constraint or obstacle");
  bool span = mc::flip("on the first segment");
  int at = mc::choose(4, "guesses");
  InCompany([&] {
    auto what = mc::fmt("%s, %s%s, layout %s, guesses %d, in company of %s", kRobots[robot], kind == kKinds ? "an obstacle" : Usual(kind).Text().c_str(), span ? " on the first segment" : " on waypoint 0",
                        Show(N).c_str(), at, CompanyName(company));
    mc::op();
    mc::state(mc::Hash{}.add(what));
    try {
      auto r = Build(N, d, [&](SwervePathBuilder& b) {
        for (size_t i = 0; i <= N.size(); ++i) {
          auto& p = kPoses[(static_cast<size_t>(at) * (i + 1)) % 3];
          if (at == 3) b.PoseWpt(i, 1.5 + 0.25 * static_cast<double>(i), 1, 0.1);
          else b.WptInitialGuessPoint(i, {p.x, p.y, {p.th}});
        }
        if (kind == kKinds) {
          b.AddBumpers(Bumpers{0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
          Obstacle o{0.25, {{4, 4}, {6, 4}, {5, 7}}};
          if (span) b.SgmtObstacle(0, 1, o);
          else b.WptObstacle(0, o);
        } else if (span) {
          b.SgmtConstraint(0, 1, Usual(kind).Make());
        } else {
          b.WptConstraint(0, Usual(kind).Make());
        }
      });
      Judge(r.p, r.m, what);
    } catch (const mc::Violation&) {
      throw;
    } catch (const mc::Prune&) {
      throw;
    } catch (const std::exception& x) {
      mc::fail("%s: the generator failed: %s", what.c_str(), x.what());
    }
  });
}

}  // namespace

#ifndef CHECK_DERIVATIVES
int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"layouts", Layouts, 4}, {"constraints", Constraints, 5}, {"magnitudes", Magnitudes, 3}, {"obstacles", Obstacles, 5}, {"guess-points", Guesses, 5}, {"mixtures", Mixtures, 3}, {"company", Company, 4}});
}
#endif
