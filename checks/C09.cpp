// C09: the solver starts from the initial guess and its finite differences.
#include "checks/constraints.hpp"

namespace {

using namespace tp;

constexpr double kPi = std::numbers::pi;

struct P {
  double x, y, th;
};

void Check(SwervePathBuilder& b, const std::vector<size_t>& N, size_t modules, const std::string& what) {
  mc::op();
  MC_LOG("  %s", what.c_str());
  auto g = b.CalculateInitialGuess();
  SwerveTrajectoryGenerator gen{b};
  FieldMap m;
  auto p = Capture(gen, m, N, modules);
  size_t n = SampleOfWpt(N, N.size()) + 1;
  auto same = [&](double got, double want, const char* f, size_t i, double tol = 1e-9) {
    MC_CHECK(std::abs(got - want) <= tol * (1 + std::abs(want)), "%s: %s of sample %zu starts at %.9g, not %.9g", what.c_str(), f, i, got,
             want);
  };
  auto at = [&](const ivec& f, size_t i) { return p.init[static_cast<size_t>(f[i])]; };
  std::vector<double> ww(n);
  for (size_t i = 0; i < n; ++i) {
    same(at(m.x, i), g.x[i], "x", i);
    same(at(m.y, i), g.y[i], "y", i);
    same(at(m.c, i), g.thetacos[i], "cos", i);
    same(at(m.s, i), g.thetasin[i], "sin", i);
    if (i == 0) {
      for (auto* f : {&m.vx, &m.vy, &m.w, &m.ax, &m.ay, &m.al})
        MC_CHECK(at(*f, 0) == 0.0, "%s: the first sample does not start at rest (%g)", what.c_str(), at(*f, 0));
      continue;
    }
    double h = g.dt[i - 1];
    same(at(m.vx, i), (g.x[i] - g.x[i - 1]) / h, "vx", i);
    same(at(m.vy, i), (g.y[i] - g.y[i - 1]) / h, "vy", i);
    double turn = atan2(g.thetasin[i] * g.thetacos[i - 1] - g.thetacos[i] * g.thetasin[i - 1],
                        g.thetacos[i] * g.thetacos[i - 1] + g.thetasin[i] * g.thetasin[i - 1]);
    double w = at(m.w, i);
    if (std::abs(std::abs(turn) - kPi) < 1e-6 && std::abs(w + turn / h) < 1e-6 * (1 + std::abs(w))) turn = -turn;  // either way
    same(w, turn / h, "omega", i);
    same(at(m.ax, i), (at(m.vx, i) - at(m.vx, i - 1)) / h, "ax", i);
    same(at(m.ay, i), (at(m.vy, i) - at(m.vy, i - 1)) / h, "ay", i);
    same(at(m.al, i), (w - at(m.w, i - 1)) / h, "alpha", i);
  }
  for (size_t i = 0; i + 1 < n; ++i) {
    double h = at(m.dt, i);
    MC_CHECK(std::isfinite(h) && h > 0, "%s: the time step of interval %zu starts at %g", what.c_str(), i, h);
  }
  mc::state(mc::Hash{}.add(what));
}

const P kPoses[] = {{0, 0, 0}, {3, -1, 2.5}, {-2, 4, -2.5}, {1, 1, 9}, {0.5, 0.25, -kPi / 2}, {3, 4, kPi}, {-7, 2, -20}};

// Two or three waypoints, every pair/triple of guesses.
void Guesses() {
  int wpts = 2 + mc::choose(2, "waypoints, less two");
  int alphabet = wpts == 2 ? 7 : mc::thorough() ? 7 : 5;
  int drive = mc::choose(4, "robot");
  static const size_t counts[] = {1, 2, 3, 5};
  std::vector<size_t> N;
  SwervePathBuilder b;
  b.SetDrivetrain(Drive(drive));
  std::string what;
  for (int i = 0; i < wpts; ++i) {
    if (i > 0) N.push_back(mc::pick(counts, "intervals"));
    auto& p = kPoses[mc::choose(alphabet, "guess")];
    b.WptInitialGuessPoint(static_cast<size_t>(i), {p.x, p.y, {p.th}});
    what += mc::fmt("%s(%g, %g, %g)", i > 0 ? mc::fmt(" - %zu - ", N.back()).c_str() : "", p.x, p.y, p.th);
  }
  what += mc::fmt(", robot %d", drive);
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  Check(b, N, Drive(drive).modules.size(), what);
}

// Guesses that differ by very little or very much, or not at all.
void Magnitudes() {
  static const double sizes[] = {0, 1e-12, 1e-7, 1e-3, 0.3, 40, 1e4, 1e7};
  double dx = mc::pick(sizes, "dx"), dy = mc::pick(sizes, "dy") * (mc::choose(2, "sign of dy") ? -1 : 1);
  double turn = mc::pick({0.0, 1e-12, 1e-7, 1e-3, -1e-3, 0.3, -3.1, 40.0, -1e4}, "turn");
  P from = mc::pick({P{0, 0, 0}, P{3, -1, 2.5}, P{-2500, 80, -3}}, "from");
  static const std::vector<size_t> layouts[] = {{1}, {3}, {10}, {2, 1}};
  auto N = mc::pick(layouts, "layout");
  SwervePathBuilder b;
  b.SetDrivetrain(Drive(1));
  for (size_t w = 0; w <= N.size(); ++w) {
    double f = static_cast<double>(w);
    b.WptInitialGuessPoint(w, {from.x + f * dx, from.y + f * dy, {from.th + f * turn}});
  }
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  Check(b, N, Drive(1).modules.size(), mc::fmt("layout %s, from (%g, %g, %g), moving (%g, %g), turning %g", Show(N).c_str(), from.x, from.y, from.th, dx, dy, turn));
}

// Longer paths with intermediate points and constraints.
void Paths() {
  size_t segs = static_cast<size_t>(mc::choose(4, "segments"));
  std::vector<size_t> N;
  SwervePathBuilder b;
  int drive = mc::choose(2, "robot");
  b.SetDrivetrain(Drive(drive));
  int k = 0;
  std::string what;
  static const size_t counts[] = {1, 2, 4, 7, 40};
  b.PoseWpt(0, 0.5, -0.5, 0.4);
  for (size_t s = 0; s < segs; ++s) {
    N.push_back(mc::thorough() || segs < 3 ? mc::pick(counts, "intervals") : 1 + 2 * static_cast<size_t>(mc::choose(2, "intervals")));
    int points = mc::thorough() || segs < 3 ? mc::choose(3, "points") : 2 * mc::choose(2, "points");
    ++k;
    std::vector<trajopt::Pose2d> pts;
    for (int i = 0; i < points; ++i) {
      ++k;
      pts.push_back({1.5 * k, -0.5 * k * k, {1.9 * k}});
    }
    ++k;
    int kind = mc::choose(3, "kind of waypoint");
    switch (kind) {
      case 0: b.PoseWpt(s + 1, k, -k, 2.2 * k); break;
      case 1: b.TranslationWpt(s + 1, k, 1 - k, -1.3 * k); break;
      default: b.WptInitialGuessPoint(s + 1, {0.5 * k, 0.25 * k, {2.9 * k}}); break;
    }
    b.SgmtInitialGuessPoints(s, pts);
    if (s == 1) b.SgmtConstraint(0, 2, trajopt::LinearVelocityMaxMagnitudeConstraint{2.0});
    what += mc::fmt("%zu intervals through %d points to waypoint of kind %d, ", N.back(), points, kind);
  }
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  Check(b, N, Drive(drive).modules.size(), what + mc::fmt("robot %d", drive));
}

// Guesses that turn and move a lot within every step of a long path, or hardly at all.
void Quick() {
  static const size_t sizes[] = {10, 60, 300, 1000};
  size_t n = mc::pick(sizes, "intervals");
  double turn = mc::pick({0.0, 0.01, 0.4, -2.0, 3.1, 12.0}, "turn");
  double move = mc::pick({0.0, 1e-3, 0.5, 300.0}, "move");
  bool back = mc::choose(2, "onwards / back and forth") == 1;
  size_t every = mc::pick({1, 3}, "intervals per point");
  int segs = mc::choose(2, "as intermediate points / as waypoints");
  SwervePathBuilder b;
  b.SetDrivetrain(Drive(1));
  std::vector<trajopt::Pose2d> pts;
  for (size_t i = 0; i <= n / every; ++i) {
    double f = back ? static_cast<double>(i % 2) : static_cast<double>(i);
    pts.push_back({1 + f * move, 2 - 0.5 * f * move, {0.3 + f * turn}});
  }
  std::vector<size_t> N;
  if (segs == 1) {
    if (n > 300) throw mc::Prune{};
    N.assign(pts.size() - 1, every);
    for (size_t i = 0; i < pts.size(); ++i) b.WptInitialGuessPoint(i, pts[i]);
  } else {
    N = {n / every * every};
    b.WptInitialGuessPoint(0, pts.front());
    b.WptInitialGuessPoint(1, pts.back());
    b.SgmtInitialGuessPoints(0, std::vector<trajopt::Pose2d>(pts.begin() + 1, pts.end() - 1));
  }
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  Check(b, N, Drive(1).modules.size(),
        mc::fmt("%zu intervals in %zu segments, every %zu turning by %g and moving by %g, %s", n, N.size(), every, turn, move, back ? "back and forth" : "onwards"));
}

// Many samples, modules and segments.
void Large() {
  static const std::vector<size_t> layouts[] = {{100}, {40, 40, 40}, std::vector<size_t>(30, 1), {1, 90, 2}, {300}, {3, 520}, std::vector<size_t>(280, 1), {5000}, {33000, 2}, {2, 66000}};
  auto N = mc::pick(layouts, "layout");
  if (N.back() > 60000 && !mc::thorough()) throw mc::Prune{};
  size_t modules = static_cast<size_t>(mc::choose(4, "modules")) * 3 + 1;
  if (N[0] + N.back() > 4000 && modules > 1) throw mc::Prune{};
  SwervePathBuilder b;
  SwerveDrivetrain d{30, 4, {}};
  for (size_t i = 0; i < modules; ++i) d.modules.push_back({{0.25 * static_cast<double>(i), 0.5}, 0.04, 70, 2});
  b.SetDrivetrain(d);
  for (size_t i = 0; i <= N.size(); ++i) {
    double f = static_cast<double>(i);
    b.WptInitialGuessPoint(i, {f, -f * f, {1.7 * f}});
  }
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  Check(b, N, modules, mc::fmt("layout %s, %zu modules", Show(N).c_str(), modules));
}

// What else is asked of the path does not move the start: every constraint, a stop, obstacles and bumpers, on every place, which the guess
// satisfies or not, asked for before or after it was given; with each kind of company.
void Requests() {
  int kind = mc::choose(kKinds + 3, "request");
  static const std::vector<size_t> layouts[] = {{1}, {3}, {2, 1}, {1, 4, 2}};
  auto N = mc::pick(layouts, "layout");
  size_t from = static_cast<size_t>(mc::choose(static_cast<int>(N.size()) + 1, "from"));
  size_t to = from + static_cast<size_t>(mc::choose(static_cast<int>(N.size() + 1 - from), "to, less from"));
  bool last = mc::flip("asked for after the guess");
  int guess = mc::choose(4, "guess");
  int other = mc::choose(mc::thorough() ? kKinds + 1 : 3, "another constraint at the end");
  auto con = [](int k, double f) -> Con {
    switch (k) {
      case kPose: return {kPose, {1.5 + f, -0.75, 2}};
      case kTrans: return {kTrans, {-1.5, 2 + f}};
      case kLinVel: return {kLinVel, {0.25 * f}};
      case kLinDir: return {kLinDir, {1 + f}};
      case kAngVel: return {kAngVel, {0.125 * f}};
      case kLinAcc: return {kLinAcc, {0.5 * f}};
      case kPointAt: return {kPointAt, {4, 4 + f, 0.2}};
      case kPointPoint: return {kPointPoint, {0.25, 0, 2 + f, 1, 1}};
      case kLinePoint: return {kLinePoint, {0.5, 0.5, -0.5, 0.5, 1, 1 + f, 2}};
      default: return {kPointLine, {0.25, 0.5, -4, 1, 6, 1 + f, 1}};
    }
  };
  SwervePathBuilder b;
  b.SetDrivetrain(Drive(1));
  auto request = [&] {
    if (kind < kKinds) {
      if (from == to) b.WptConstraint(from, con(kind, 0).Make());
      else b.SgmtConstraint(from, to, con(kind, 1).Make());
    } else if (kind == kKinds) {
      if (from == to) b.PoseWpt(from, 1.5, -0.75, 2);
      else b.TranslationWpt(from, 1.5, -0.75, 2);
    } else {
      b.AddBumpers({0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
      trajopt::Obstacle o{0.5, kind == kKinds + 1 ? std::vector<Translation2d>{{1, 1}} : std::vector<Translation2d>{{0, 0}, {3, 0}, {1.5, 2}}};
      if (from == to) b.WptObstacle(from, o);
      else b.SgmtObstacle(from, to, o);
    }
    if (other > 0) {
      static const int some[] = {kLinVel, kPose};
      int k = mc::thorough() ? other - 1 : some[other - 1];
      b.WptConstraint(N.size(), con(k, 2).Make());
    }
  };
  if (!last) request();
  for (size_t w = 0; w <= N.size(); ++w) {
    double f = static_cast<double>(w);
    if (guess == 0) b.WptInitialGuessPoint(w, {0.0, 0.0, {0.0}});
    if (guess == 1) b.WptInitialGuessPoint(w, {1 + f, 1 - 0.5 * f, {0.4 + 1.1 * f}});
    if (guess == 2) b.WptInitialGuessPoint(w, {1.5, -0.75, {2.0 - 0.1 * f}});
    if (guess == 3 && w > 0) b.SgmtInitialGuessPoints(w - 1, {{-3, f, {f}}, {4, 2 * f, {-3 * f}}});
  }
  if (last) request();
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  Check(b, N, Drive(1).modules.size(), mc::fmt("layout %s, request %d from %zu to %zu %s guess %d, %d at the end", Show(N).c_str(), kind, from, to, last ? "after" : "before", guess, other));
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"guesses", Guesses, 4}, {"paths", Paths, 4}, {"magnitudes", Magnitudes, 3}, {"quick", Quick, 3}, {"large", Large, 2}, {"requests", Requests, 4}});
}
