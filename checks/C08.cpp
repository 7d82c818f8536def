// C08: the initial guess visits every guess point, evenly and the short way round.
#include "checks/constraints.hpp"

namespace {

using namespace tp;
using trajopt::Pose2d;
using trajopt::SwerveSolution;

constexpr double kPi = std::numbers::pi;

struct Pose {
  double x = 0, y = 0, th = 0;
  Pose2d Make() const { return {x, y, {th}}; }
  std::string Text() const { return mc::fmt("(%g, %g, %g)", x, y, th); }
};

// The guess points of a path: at each waypoint the batches of intermediate
// points before it (whose mutual order is not documented), then its own.
struct Wpt {
  std::vector<std::vector<Pose>> batches;
  Pose own;
  std::vector<Pose> Points(bool newestFirst) const {
    std::vector<Pose> r;
    for (size_t i = 0; i < batches.size(); ++i) {
      auto& b = batches[newestFirst ? batches.size() - 1 - i : i];
      r.insert(r.end(), b.begin(), b.end());
    }
    r.push_back(own);
    return r;
  }
};

double Near(double a, double b) { return std::abs(a - b) / (1 + std::abs(a) + std::abs(b)); }

/// "" if the guess is right for the points in this order.
std::string Judge(const SwerveSolution& g, const std::vector<Wpt>& wpts, const std::vector<size_t>& N, bool newestFirst) {
  size_t n = SampleOfWpt(N, N.size()) + 1;
  auto at = [&](size_t i, double x, double y, double c, double s, const char* what) -> std::string {
    if (Near(g.x[i], x) > 1e-9 || Near(g.y[i], y) > 1e-9)
      return mc::fmt("%s (sample %zu of %zu) is at (%.9g, %.9g), not (%.9g, %.9g)", what, i, n, g.x[i], g.y[i], x, y);
    if (std::abs(g.thetacos[i] - c) > 1e-9 || std::abs(g.thetasin[i] - s) > 1e-9)
      return mc::fmt("%s (sample %zu of %zu) has heading (%.9g, %.9g), not (%.9g, %.9g)", what, i, n, g.thetacos[i], g.thetasin[i], c, s);
    return "";
  };
  auto first = wpts[0].own;
  if (auto e = at(0, first.x, first.y, cos(first.th), sin(first.th), "the first sample"); !e.empty()) return e;
  size_t i = 1;
  Pose from = first;
  for (size_t w = 1; w < wpts.size(); ++w) {
    auto pts = wpts[w].Points(newestFirst);
    size_t leg = N[w - 1] / pts.size();
    for (size_t k = 0; k < pts.size(); ++k) {
      size_t m = k + 1 < pts.size() ? leg : N[w - 1] - (pts.size() - 1) * leg;
      double turn = remainder(pts[k].th - from.th, 2 * kPi);
      bool half = std::abs(std::abs(turn) - kPi) < 1e-6;
      std::string err;
      for (int way = 0; way < (half ? 2 : 1); ++way) {
        double t = way == 0 ? turn : -turn;
        err.clear();
        for (size_t j = 1; j <= m && err.empty(); ++j) {
          double f = static_cast<double>(j) / static_cast<double>(m);
          double th = from.th + f * t;
          err = at(i + j - 1, from.x + f * (pts[k].x - from.x), from.y + f * (pts[k].y - from.y), cos(th), sin(th),
                   mc::fmt("step %zu of %zu of the leg from %s to %s", j, m, from.Text().c_str(), pts[k].Text().c_str()).c_str());
        }
        if (err.empty()) break;
      }
      if (!err.empty()) return err;
      i += m;
      from = pts[k];
    }
  }
  return "";
}

void Check(const SwervePathBuilder& b, const std::vector<Wpt>& wpts, const std::vector<size_t>& N, const std::string& what) {
  mc::op();
  auto g = b.CalculateInitialGuess();
  size_t n = SampleOfWpt(N, N.size()) + 1;
  MC_CHECK(g.x.size() == n && g.y.size() == n && g.thetacos.size() == n && g.thetasin.size() == n,
           "%s: the guess has %zu, %zu, %zu, %zu entries of x, y, cos, sin for %zu samples", what.c_str(), g.x.size(), g.y.size(),
           g.thetacos.size(), g.thetasin.size(), n);
  MC_CHECK(g.dt.size() >= n - 1, "%s: the guess has %zu time steps for %zu intervals", what.c_str(), g.dt.size(), n - 1);
  for (double h : g.dt) MC_CHECK(std::isfinite(h) && h > 0, "%s: a time step of the guess is %g", what.c_str(), h);
  for (size_t i = 0; i < n; ++i)
    MC_CHECK(std::abs(hypot(g.thetacos[i], g.thetasin[i]) - 1) < 1e-9, "%s: heading (%g, %g) of sample %zu is not a unit vector",
             what.c_str(), g.thetacos[i], g.thetasin[i], i);
  auto e = Judge(g, wpts, N, true);
  if (!e.empty()) {
    bool several = false;
    for (auto& w : wpts) several |= w.batches.size() > 1;
    if (several && Judge(g, wpts, N, false).empty()) e.clear();
  }
  MC_CHECK(e.empty(), "%s: %s", what.c_str(), e.c_str());
}

const Pose kPoses[] = {{0, 0, 0}, {3, -1, 2.5}, {-2, 4, -2.5}, {1, 1, 9}, {0.5, 0.25, -kPi / 2}, {3, 4, kPi}, {-7, 2, -20}, {1e3, -1e-3, 1}};

// One segment: every sample count x every sequence of guess points.
void Legs() {
  size_t N = static_cast<size_t>(mc::choose(mc::thorough() ? 13 : 9, "intervals, less one")) + 1;
  int points = mc::choose(mc::thorough() ? 5 : 4, "intermediate points");
  int alphabet = points <= 1 ? 8 : points == 2 ? (mc::thorough() ? 8 : 5) : (mc::thorough() ? 5 : 3);
  auto any = [&](const char* w) { return kPoses[mc::choose(alphabet, w)]; };
  std::vector<Wpt> w(2);
  w[0].own = any("start");
  std::vector<Pose> batch;
  for (int i = 0; i < points; ++i) batch.push_back(any("point"));
  w[1].own = any("end");
  if (points > 0) w[1].batches = {batch};
  SwervePathBuilder b;
  b.WptInitialGuessPoint(0, w[0].own.Make());
  b.WptInitialGuessPoint(1, w[1].own.Make());
  std::vector<Pose2d> pts;
  for (auto& p : batch) pts.push_back(p.Make());
  if (points > 0) b.SgmtInitialGuessPoints(0, pts);
  b.ControlIntervalCounts({N});
  std::string what = mc::fmt("%zu intervals from %s through", N, w[0].own.Text().c_str());
  for (auto& p : batch) what += " " + p.Text();
  what += " to " + w[1].own.Text();
  MC_LOG("  %s", what.c_str());
  mc::state(mc::Hash{}.add(what));
  Check(b, w, {N}, what);
}

// Every history of the calls that set guesses.
struct History {
  SwervePathBuilder b;
  std::vector<Wpt> w;
  std::vector<size_t> counts;
  int step = 0;
  std::string said;

  void Say(std::string s) {
    MC_LOG("  %s", s.c_str());
    said += (said.empty() ? "" : "; ") + s;
  }
  void Grow(size_t i) {
    while (w.size() <= i) {
      if (!w.empty()) counts.push_back(40);
      w.emplace_back();
    }
  }
  Pose Next() {
    double d = step;
    return {0.5 + d, 2 - 0.75 * d, 0.3 + 1.4 * d};
  }
  void Step(size_t maxIndex) {
    ++step;
    mc::op();
    int n = static_cast<int>(maxIndex) + 1;
    int o = mc::choose(3 * n + 3 * (n - 1) + 4, "call");
    auto p = Next();
    if (o < n) {
      auto i = static_cast<size_t>(o);
      Say(mc::fmt("PoseWpt(%zu, %s)", i, p.Text().c_str()));
      b.PoseWpt(i, p.x, p.y, p.th);
      Grow(i);
      w[i].own = p;
      return;
    }
    o -= n;
    if (o < n) {
      auto i = static_cast<size_t>(o);
      bool given = step % 2 == 1;
      Say(mc::fmt("TranslationWpt(%zu, %s%s)", i, p.Text().c_str(), given ? "" : ", no heading"));
      if (given) b.TranslationWpt(i, p.x, p.y, p.th);
      else b.TranslationWpt(i, p.x, p.y);
      Grow(i);
      w[i].own = p;
      if (!given) w[i].own.th = 0;
      return;
    }
    o -= n;
    if (o < n) {
      auto i = static_cast<size_t>(o);
      Say(mc::fmt("WptInitialGuessPoint(%zu, %s)", i, p.Text().c_str()));
      b.WptInitialGuessPoint(i, p.Make());
      Grow(i);
      w[i].own = p;
      return;
    }
    o -= n;
    if (o < 3 * (n - 1)) {
      auto i = static_cast<size_t>(o / 3);
      std::vector<Pose> batch;
      std::vector<Pose2d> pts;
      for (int k = 0; k < o % 3 + 1; ++k) {
        auto q = p;
        q.x += 0.1 * k;
        q.th -= 0.7 * k;
        batch.push_back(q);
        pts.push_back(q.Make());
      }
      Say(mc::fmt("SgmtInitialGuessPoints(%zu, %zu points)", i, batch.size()));
      b.SgmtInitialGuessPoints(i, pts);
      Grow(i + 1);
      w[i + 1].batches.push_back(batch);
      return;
    }
    o -= 3 * (n - 1);
    if (o == 0) {
      Say("SgmtInitialGuessPoints(0, none)");
      b.SgmtInitialGuessPoints(0, {});
      Grow(1);
    } else if (o == 1) {
      if (w.empty()) throw mc::Prune{};
      std::vector<size_t> c;
      for (size_t i = 0; i + 1 < w.size(); ++i) c.push_back(1 + static_cast<size_t>(step) * (i + 1));
      Say("ControlIntervalCounts(" + Show(c) + ")");
      counts = c;
      b.ControlIntervalCounts(std::move(c));
    } else if (o == 2) {
      Say("WptConstraint(1)");
      b.WptConstraint(1, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0});
      Grow(1);
    } else {
      Say("SgmtConstraint(0, 2)");
      b.SgmtConstraint(0, 2, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0});
      Grow(2);
    }
  }
};
void Histories() {
  History h;
  int depth = 1 + mc::choose(mc::thorough() ? 5 : 4, "calls, less one");
  size_t maxIndex = mc::thorough() ? 3 : 2;
  for (int i = 0; i < depth; ++i) h.Step(maxIndex);
  mc::state(mc::Hash{}.add(h.said));
  if (!h.w.empty()) Check(h.b, h.w, h.counts, h.said);
}

// Paths of several segments: every layout x number of points per segment.
void Paths() {
  size_t segs = static_cast<size_t>(mc::choose(3, "segments, less one")) + 1;
  std::vector<size_t> N;
  std::vector<Wpt> w(1);
  SwervePathBuilder b;
  int k = 0;
  auto next = [&] {
    ++k;
    return Pose{1.5 * k, -0.5 * k * k, 1.1 * k};
  };
  w[0].own = next();
  b.WptInitialGuessPoint(0, w[0].own.Make());
  std::string what;
  static const size_t counts[] = {1, 2, 3, 4, 7, 40};
  for (size_t s = 0; s < segs; ++s) {
    N.push_back(mc::pick(counts, "intervals"));
    int points = mc::choose(mc::thorough() || segs < 3 ? 5 : 3, "points");
    Wpt v;
    std::vector<Pose> batch;
    std::vector<Pose2d> pts;
    for (int i = 0; i < points; ++i) {
      batch.push_back(next());
      pts.push_back(batch.back().Make());
    }
    v.own = next();
    if (points > 0) v.batches = {batch};
    // either order of the calls gives the same guess
    if (s % 2 == 0) b.WptInitialGuessPoint(s + 1, v.own.Make());
    b.SgmtInitialGuessPoints(s, pts);
    if (s % 2 == 1) b.WptInitialGuessPoint(s + 1, v.own.Make());
    w.push_back(v);
    what += mc::fmt("%zu intervals through %d points, ", N.back(), points);
  }
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  mc::state(mc::Hash{}.add(what));
  MC_LOG("  %s", what.c_str());
  Check(b, w, N, what);
}

// Points at one place, headings that agree or nearly do, full turns, moves of
// every size, far from the origin.
void Special() {
  static const double scales[] = {1e-9, 1e-6, 1e-4, 1e-3, 0.01, 1, 500, 1e6};
  static const Pose origins[] = {{0, 0, 0}, {5, -3, 0}, {-1e4, 0, 0}};
  static const double moves[][2] = {{0, 0}, {1, 0}, {0, -1}, {-0.6, 0.8}};
  static const double turns[] = {0, 1e-9, 1e-6, 1e-4, -1e-3, 4e-3, -0.02, 0.3, -1, kPi / 2, -kPi + 1e-3, kPi - 4e-3, kPi, 2 * kPi, -2 * kPi + 0.01, 31, -1e3};
  static const double starts[] = {0, 1.0, kPi / 2, -3.14, 60};
  double scale = mc::pick(scales, "size of the move");
  auto origin = mc::pick(origins, "origin");
  int mv = mc::choose(4, "move");
  double turn = mc::pick(turns, "turn");
  double start = mc::pick(starts, "heading");
  if (mv == 0 && scale != 1.0) throw mc::Prune{};
  static const size_t counts[] = {1, 2, 3, 5, 40};
  size_t N = mc::pick(counts, "intervals");
  int points = mc::choose(4, "further points: none / as the start / as the end / half way and back");
  std::vector<Wpt> w(2);
  w[0].own = {origin.x, origin.y, start};
  w[1].own = {origin.x + scale * moves[mv][0], origin.y + scale * moves[mv][1], start + turn};
  Pose mid{(w[0].own.x + w[1].own.x) / 2, (w[0].own.y + w[1].own.y) / 2, start};
  if (points == 1) w[1].batches = {{w[0].own}};
  else if (points == 2) w[1].batches = {{w[1].own}};
  else if (points == 3) w[1].batches = {{mid, w[0].own}};
  SwervePathBuilder b;
  b.WptInitialGuessPoint(0, w[0].own.Make());
  b.WptInitialGuessPoint(1, w[1].own.Make());
  if (points > 0) {
    std::vector<Pose2d> pts;
    for (auto& p : w[1].batches[0]) pts.push_back(p.Make());
    b.SgmtInitialGuessPoints(0, pts);
  }
  b.ControlIntervalCounts({N});
  std::string what = mc::fmt("%zu intervals from %s to %s, further points %d", N, w[0].own.Text().c_str(), w[1].own.Text().c_str(), points);
  MC_LOG("  %s", what.c_str());
  mc::state(mc::Hash{}.add(what).add(w[1].own.x).add(w[1].own.y).add(w[1].own.th));
  Check(b, w, {N}, what);
}

// Points given in several calls, wherever they are: none replaces another.
void Batches() {
  static const Pose places[] = {{1, 0, 0.5}, {1, 0, -1.5}, {1.0004, 0, 0.5}, {2, 1, 0.5}};
  int calls = 2 + mc::choose(2, "calls, less two");
  std::vector<Wpt> w(3);
  w[0].own = {0, 0, 0};
  w[1].own = mc::pick(places, "first waypoint's guess");
  w[2].own = {4, 4, 1};
  SwervePathBuilder b;
  std::string what;
  bool late = mc::choose(2, "waypoints first / last") == 1;
  auto own = [&] {
    for (size_t i = 0; i < 3; ++i) b.WptInitialGuessPoint(i, w[i].own.Make());
  };
  if (!late) own();
  for (int k = 0; k < calls; ++k) {
    int seg = calls == 2 || mc::thorough() ? mc::choose(2, "segment") : 0;
    int points = mc::choose(calls == 2 || mc::thorough() ? 3 : 2, "points, less one") + 1;
    std::vector<Pose> batch;
    std::vector<Pose2d> pts;
    for (int i = 0; i < points; ++i) {
      batch.push_back(i == 2 ? batch[0] : mc::pick(places, "point"));
      pts.push_back(batch.back().Make());
    }
    b.SgmtInitialGuessPoints(static_cast<size_t>(seg), pts);
    w[static_cast<size_t>(seg) + 1].batches.push_back(batch);
    what += mc::fmt("%sto segment %d", what.empty() ? "" : ", ", seg);
    for (auto& p : batch) what += " " + p.Text();
  }
  if (late) own();
  std::vector<size_t> N{static_cast<size_t>(mc::pick({12, 7}, "intervals")), 9};
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  mc::state(mc::Hash{}.add(what).add(w[1].own.x).add(w[1].own.th).add(N[0]).add((uint64_t)late));
  MC_LOG("  %s", what.c_str());
  Check(b, w, N, what);
}

// Very long segments, and very many points.
void Endless() {
  static const size_t intervals[] = {300, 5000, 40000, 70000};
  static const size_t lists[] = {0, 1, 60, 3000, 40000};
  size_t n = mc::pick(intervals, "intervals"), points = mc::pick(lists, "points");
  size_t lead = static_cast<size_t>(mc::choose(2, "first / second segment"));
  if (!mc::thorough() && (n > 40000 || points > 3000)) throw mc::Prune{};
  SwervePathBuilder b;
  std::vector<Wpt> w(2 + lead);
  std::vector<size_t> N(1 + lead, 3);
  N.back() = n;
  for (size_t i = 0; i < w.size(); ++i) {
    double d = static_cast<double>(i);
    w[i].own = {d, -d, 0.9 * d};
    b.WptInitialGuessPoint(i, w[i].own.Make());
  }
  if (points > 0) {
    std::vector<Pose> batch;
    std::vector<Pose2d> pts;
    for (size_t k = 0; k < points; ++k) {
      batch.push_back({0.01 * static_cast<double>(k % 701), 2.0, 0.1 * static_cast<double>(k % 20)});
      pts.push_back(batch.back().Make());
    }
    b.SgmtInitialGuessPoints(lead, pts);
    w.back().batches = {batch};
  }
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  Check(b, w, N, mc::fmt("%zu intervals, %zu points", n, points));
}

// Many segments, samples and guess points.
void Large() {
  static const size_t sizes[] = {1, 5, 30, 100};
  size_t segs = mc::pick(sizes, "segments");
  size_t each = mc::pick(sizes, "intervals");
  size_t points = static_cast<size_t>(mc::choose(2, "many points")) * 60;
  SwervePathBuilder b;
  std::vector<Wpt> w(segs + 1);
  std::vector<size_t> N(segs, each);
  for (size_t i = 0; i <= segs; ++i) {
    double d = static_cast<double>(i);
    w[i].own = {d, -d, 0.9 * d};
    b.WptInitialGuessPoint(i, w[i].own.Make());
    if (i == segs && points > 0) {
      std::vector<Pose> batch;
      std::vector<Pose2d> pts;
      for (size_t k = 0; k < points; ++k) {
        batch.push_back({static_cast<double>(k), 2.0, 0.1 * static_cast<double>(k)});
        pts.push_back(batch.back().Make());
      }
      b.SgmtInitialGuessPoints(i - 1, pts);
      w[i].batches = {batch};
    }
  }
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  Check(b, w, N, mc::fmt("%zu segments of %zu intervals, %zu points in the last", segs, each, points));
}

// What else is asked of the path does not move the guess: every constraint, obstacles and bumpers, the robot, callbacks, on every place, which
// the guess satisfies or not; before or after it was given.
void Requests() {
  int kind = mc::choose(kKinds + 6, "request");
  static const std::vector<size_t> layouts[] = {{1}, {5}, {2, 1}, {1, 4, 3}};
  auto N = mc::pick(layouts, "layout");
  size_t from = static_cast<size_t>(mc::choose(static_cast<int>(N.size()) + 1, "from"));
  size_t to = from + static_cast<size_t>(mc::choose(static_cast<int>(N.size() + 1 - from), "to, less from"));
  int when = mc::choose(3, "asked before / between / after the guesses");
  int guess = mc::choose(4, "guess");
  bool twice = mc::flip("asked twice");
  double at[] = {0.75, -1.25};
  auto con = [&]() -> Con {
    switch (kind) {
      case kPose: return {kPose, {1.5, at[1], 2}};
      case kTrans: return {kTrans, {at[0], 2}};
      case kLinVel: return {kLinVel, {0}};
      case kLinDir: return {kLinDir, {1}};
      case kAngVel: return {kAngVel, {0}};
      case kLinAcc: return {kLinAcc, {0}};
      case kPointAt: return {kPointAt, {at[0], at[1] + 3, 0.2}};
      case kPointPoint: return {kPointPoint, {0.25, 0, at[0], at[1], 1}};
      case kLinePoint: return {kLinePoint, {0.5, 0.5, -0.5, 0.5, at[0], at[1], 2}};
      default: return {kPointLine, {0.25, 0.5, -4, at[1], 6, at[1], 1}};
    }
  };
  SwervePathBuilder b;
  // (the waypoints exist)
  b.WptInitialGuessPoint(N.size(), {9.0, 9.0, {9.0}});
  auto request = [&] {
    if (kind < kKinds) {
      if (from == to) b.WptConstraint(from, con().Make());
      else b.SgmtConstraint(from, to, con().Make());
    } else if (kind == kKinds) {
      b.SetDrivetrain(Drive(2));
    } else if (kind == kKinds + 1) {
      b.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) {});
    } else {
      static const std::vector<Translation2d> bumpers[] = {{{0, 0}}, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}, {{0.25, 0}}, {{0.5, 0}, {-0.5, 0}}};
      static const std::vector<Translation2d> shapes[] = {{{0.75, -1}}, {{0, -2}, {3, -2}, {1.5, 1}}, {{0, -1.25}, {2, -1.25}}, {{0, 0}}};
      b.AddBumpers({0.1, bumpers[kind - kKinds - 2]});
      for (auto& shape : shapes) {
        trajopt::Obstacle o{0.5, shape};
        if (from == to) b.WptObstacle(from, o);
        else b.SgmtObstacle(from, to, o);
      }
    }
  };
  std::vector<Wpt> w(N.size() + 1);
  if (when == 0) request();
  if (when == 0 && twice) request();
  for (size_t i = 0; i <= N.size(); ++i) {
    double f = static_cast<double>(i);
    w[i].own = guess == 0 ? Pose{} : guess == 1 ? Pose{at[0], at[1], 0.5} : Pose{at[0] + f, at[1] - 0.5 * f, 0.4 + 1.1 * f};
    b.WptInitialGuessPoint(i, w[i].own.Make());
    if (when == 1 && i == 0) request();
    if (guess == 3 && i > 0) {
      std::vector<Pose2d> pts;
      std::vector<Pose> batch;
      for (int k = 0; k < 2; ++k) batch.push_back({0.5 * k, at[1] + f, 2.0 - k}), pts.push_back(batch.back().Make());
      b.SgmtInitialGuessPoints(i - 1, pts);
      w[i].batches = {batch};
    }
  }
  if (when == 1 && twice) request();
  if (when == 2) request();
  if (when == 2 && twice) request();
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  auto what = mc::fmt("layout %s, request %d from %zu to %zu%s, %d, guess %d", Show(N).c_str(), kind, from, to, twice ? " twice" : "", when, guess);
  MC_LOG("  %s", what.c_str());
  mc::state(mc::Hash{}.add(what));
  Check(b, w, N, what);
  Check(b, w, N, what + ", asked again");
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"legs", Legs, 4}, {"call-histories", Histories, 3}, {"paths", Paths, 4}, {"special", Special, 3}, {"batches", Batches, 4}, {"large", Large, 3}, {"endless", Endless, 3}, {"requests", Requests, 4}});
}
