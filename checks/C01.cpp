// C01: the path builder keeps exactly the waypoints and constraints it was given.
#include <memory>

#include "checks/constraints.hpp"

namespace {

using namespace tp;
using trajopt::Bumpers;
using trajopt::Obstacle;
using trajopt::SwerveSolution;

// What a constraint asks of a state, with every quantity of the state different.
struct Signature {
  size_t type = 0, eq = 0;
  std::vector<double> residuals;
  bool Same(const Signature& o) const {
    if (type != o.type || eq != o.eq || residuals.size() != o.residuals.size()) return false;
    for (size_t i = 0; i < residuals.size(); ++i)
      if (!(std::abs(residuals[i] - o.residuals[i]) <= 1e-12 * (1 + std::abs(residuals[i])))) return false;
    return true;
  }
};

Signature SignatureOf(const trajopt::Constraint& constraint) {
  sleipnir::OptimizationProblem p;
  auto var = [&](double v) {
    auto x = p.DecisionVariable();
    x.SetValue(v);
    return x;
  };
  trajopt::Pose2v pose{var(0.3), var(-1.7), {var(0.6), var(0.8)}};
  trajopt::Translation2v v{var(1.1), var(-0.4)}, a{var(2.3), var(0.9)};
  auto w = var(0.7), al = var(-1.3);
  auto copy = constraint;
  std::visit([&](auto&& c) { c.Apply(p, pose, v, w, a, al); }, copy);
  Signature s;
  s.type = constraint.index();
  s.eq = p.EnvEquality().size();
  for (auto& e : p.EnvEquality()) s.residuals.push_back(e.Value());
  for (auto& e : p.EnvInequality()) s.residuals.push_back(e.Value());
  return s;
}
// Every constraint of a history has a parameter of its own, so that none can
// stand in for another.
Con Distinct(int kind, size_t n) {
  double d = 0.125 * static_cast<double>(n);
  switch (kind) {
    case kPose: return {kPose, {1 + d, -0.5 + d, 0.7 + d}};
    case kTrans: return {kTrans, {1 + d, -0.5 - d}};
    case kLinVel: return {kLinVel, {1.5 + d}};
    case kLinDir: return {kLinDir, {0.5 + d}};
    case kAngVel: return {kAngVel, {0.75 + d}};
    case kLinAcc: return {kLinAcc, {2.0 + d}};
    case kPointAt: return {kPointAt, {5, 1 + d, 0.3}};
    case kPointPoint: return {kPointPoint, {0.25, 0, 4, 4, 2.0 + d}};
    case kLinePoint: return {kLinePoint, {0.5, 0.5, -0.5, 0.5, 4, 4, 2.0 + d}};
    default: return {kPointLine, {0.25, 0, 4, 4, 6, 4, 2.0 + d}};
  }
}
const Signature& Wanted(int kind, size_t n) {
  static std::map<std::pair<int, size_t>, Signature> cache;
  auto it = cache.find({kind, n});
  if (it == cache.end()) it = cache.emplace(std::pair{kind, n}, SignatureOf(Distinct(kind, n).Make())).first;
  return it->second;
}

bool IsClearance(const trajopt::Constraint& c) {
  return std::holds_alternative<trajopt::PointPointConstraint>(c) || std::holds_alternative<trajopt::LinePointConstraint>(c) ||
         std::holds_alternative<trajopt::PointLineConstraint>(c);
}

struct Model {
  struct Wpt {
    std::vector<std::pair<int, size_t>> wpt, sgmt;
    size_t clearances = 0, sgmtClearances = 0;  // from obstacles
  };
  std::vector<Wpt> wpts;
  std::vector<size_t> counts;
  int drivetrain = -1;
  std::vector<int> callbacks;
  int bumpers = 0;

  void Grow(size_t index) {
    while (wpts.size() <= index) {
      if (!wpts.empty()) counts.push_back(40);
      wpts.emplace_back();
    }
  }
};

SwerveDrivetrain Robot(int n) {
  SwerveDrivetrain d{30.0 + n, 5.0 + n, {}};
  for (int i = 0; i <= n; ++i) d.modules.push_back({{0.5 + i, -0.25 * n}, 0.04 + 0.01 * i, 70.0 + n, 2.0 + i});
  return d;
}
bool SameRobot(const SwerveDrivetrain& a, const SwerveDrivetrain& b) {
  if (a.mass != b.mass || a.moi != b.moi || a.modules.size() != b.modules.size()) return false;
  for (size_t i = 0; i < a.modules.size(); ++i) {
    auto &m = a.modules[i], &n = b.modules[i];
    if (m.translation.X() != n.translation.X() || m.translation.Y() != n.translation.Y() || m.wheelRadius != n.wheelRadius ||
        m.wheelMaxAngularVelocity != n.wheelMaxAngularVelocity || m.wheelMaxTorque != n.wheelMaxTorque)
      return false;
  }
  return true;
}

struct Run {
  SwervePathBuilder b;
  Model m;
  std::shared_ptr<std::vector<int>> called = std::make_shared<std::vector<int>>();
  size_t steps = 0;
  bool same = false;  // (every request with the same parameters)
  std::string history;

  size_t Id() const { return same ? 1 : steps; }

  void Said(std::string s) {
    MC_LOG("  %s", s.c_str());
    history += (history.empty() ? "" : "; ") + s;
  }

  // The operations of the builder; parameters differ from step to step.
  void Pose(size_t i) {
    size_t n = Id();
    auto c = Distinct(kPose, n);
    Said(mc::fmt("PoseWpt(%zu, #%zu)", i, n));
    b.PoseWpt(i, c.a[0], c.a[1], c.a[2]);
    m.Grow(i);
    m.wpts[i].wpt.push_back({kPose, n});
  }
  void Trans(size_t i) {
    size_t n = Id();
    auto c = Distinct(kTrans, n);
    Said(mc::fmt("TranslationWpt(%zu, #%zu)", i, n));
    if (n % 2 == 0) b.TranslationWpt(i, c.a[0], c.a[1]);
    else b.TranslationWpt(i, c.a[0], c.a[1], 0.5);
    m.Grow(i);
    m.wpts[i].wpt.push_back({kTrans, n});
  }
  void Guess(size_t i) {
    Said(mc::fmt("WptInitialGuessPoint(%zu)", i));
    b.WptInitialGuessPoint(i, {1.0, 2.0, {0.5}});
    m.Grow(i);
  }
  void SgmtGuess(size_t i, size_t points) {
    Said(mc::fmt("SgmtInitialGuessPoints(%zu, %zu points)", i, points));
    b.SgmtInitialGuessPoints(i, std::vector<trajopt::Pose2d>(points, {1.0, 2.0, {0.5}}));
    m.Grow(i + 1);
  }
  void Wpt(int kind, size_t i) {
    size_t n = Id();
    Said(mc::fmt("WptConstraint(%zu, %s #%zu)", i, KindName(kind), n));
    b.WptConstraint(i, Distinct(kind, n).Make());
    m.Grow(i);
    m.wpts[i].wpt.push_back({kind, n});
  }
  void Sgmt(int kind, size_t from, size_t to) {
    size_t n = Id();
    Said(mc::fmt("SgmtConstraint(%zu, %zu, %s #%zu)", from, to, KindName(kind), n));
    b.SgmtConstraint(from, to, Distinct(kind, n).Make());
    m.Grow(to);
    for (size_t i = from; i <= to; ++i) {
      m.wpts[i].wpt.push_back({kind, n});
      if (i > from) m.wpts[i].sgmt.push_back({kind, n});
    }
  }
  void Counts() {
    if (m.wpts.empty()) throw mc::Prune{};
    std::vector<size_t> c;
    for (size_t i = 0; i + 1 < m.wpts.size(); ++i) c.push_back(2 + 7 * i + 3 * steps);
    Said("ControlIntervalCounts(" + Show(c) + ")");
    m.counts = c;
    b.ControlIntervalCounts(std::move(c));
  }
  void Drivetrain(int n) {
    Said(mc::fmt("SetDrivetrain(robot %d)", n));
    b.SetDrivetrain(Robot(n));
    m.drivetrain = n;
  }
  void Callback() {
    int n = static_cast<int>(steps);
    Said(mc::fmt("AddIntermediateCallback(#%d)", n));
    b.AddIntermediateCallback([c = called, n](SwerveSolution&, int64_t) { c->push_back(n); });
    m.callbacks.push_back(n);
  }
  void Bumper() {
    Said("AddBumpers(circle)");
    b.AddBumpers(Bumpers{0.1, {{0.0, 0.0}}});
    ++m.bumpers;
  }
  // A circular obstacle makes one clearance per bumper; what the clearances
  // are is C04's subject.
  void WptObstacle(size_t i) {
    if (m.bumpers == 0) throw mc::Prune{};
    Said(mc::fmt("WptObstacle(%zu, circle)", i));
    b.WptObstacle(i, Obstacle{0.5, {{3.0, 4.0}}});
    m.Grow(i);
    m.wpts[i].clearances += static_cast<size_t>(m.bumpers);
  }
  void SgmtObstacle(size_t from, size_t to) {
    if (m.bumpers == 0) throw mc::Prune{};
    Said(mc::fmt("SgmtObstacle(%zu, %zu, circle)", from, to));
    b.SgmtObstacle(from, to, Obstacle{0.5, {{3.0, 4.0}}});
    m.Grow(to);
    for (size_t i = from; i <= to; ++i) {
      m.wpts[i].clearances += static_cast<size_t>(m.bumpers);
      if (i > from) m.wpts[i].sgmtClearances += static_cast<size_t>(m.bumpers);
    }
  }
  void Query() {
    if (m.wpts.empty()) throw mc::Prune{};
    Said("CalculateInitialGuess()");
    auto g = b.CalculateInitialGuess();
    size_t n = 1;
    for (auto c : m.counts) n += c;
    MC_CHECK(g.x.size() == n, "after %s: the initial guess has %zu samples for %zu intervals", history.c_str(), g.x.size(), n - 1);
  }

  void List(const std::vector<trajopt::Constraint>& have, const std::vector<std::pair<int, size_t>>& want, size_t clearances,
            bool obstacles, const std::string& where) {
    size_t k = 0, extra = 0;
    for (auto& c : have) {
      if (obstacles && IsClearance(c)) {
        ++extra;
        continue;
      }
      auto s = SignatureOf(c);
      MC_CHECK(k < want.size(), "after %s: %s carries a constraint more than the %zu requested", history.c_str(), where.c_str(),
               want.size());
      auto& w = want[k];
      MC_CHECK(s.Same(Wanted(w.first, w.second)), "after %s: constraint %zu of %s is not the %s #%zu requested", history.c_str(), k,
               where.c_str(), KindName(w.first), w.second);
      ++k;
    }
    MC_CHECK(k == want.size(), "after %s: %s carries %zu of the %zu constraints requested", history.c_str(), where.c_str(), k,
             want.size());
    MC_CHECK(extra == clearances, "after %s: %s carries %zu obstacle clearances, %zu were requested", history.c_str(), where.c_str(),
             extra, clearances);
  }
  void Check() {
    auto& p = b.GetPath();
    MC_CHECK(p.waypoints.size() == m.wpts.size(), "after %s: the path has %zu waypoints, the highest one referred to requires %zu",
             history.c_str(), p.waypoints.size(), m.wpts.size());
    auto& counts = b.GetControlIntervalCounts();
    MC_CHECK(counts == m.counts, "after %s: the control interval counts are %s, not %s", history.c_str(), Show(counts).c_str(),
             Show(m.counts).c_str());
    for (size_t i = 0; i < m.wpts.size(); ++i) {
      bool obstacles = m.bumpers > 0;
      List(p.waypoints[i].waypointConstraints, m.wpts[i].wpt, m.wpts[i].clearances, obstacles, mc::fmt("waypoint %zu", i));
      List(p.waypoints[i].segmentConstraints, m.wpts[i].sgmt, m.wpts[i].sgmtClearances, obstacles, mc::fmt("the segment to waypoint %zu", i));
    }
    if (m.drivetrain >= 0)
      MC_CHECK(SameRobot(p.drivetrain, Robot(m.drivetrain)), "after %s: the drivetrain is not the one set last", history.c_str());
    called->clear();
    SwerveSolution s;
    for (auto& c : p.callbacks) c(s, 5);
    MC_CHECK(*called == m.callbacks, "after %s: the callbacks are not the %zu added, in order", history.c_str(), m.callbacks.size());
    mc::Hash h;
    h.add(m.wpts.size()).add(Show(m.counts)).add(static_cast<uint64_t>(m.drivetrain)).add(m.callbacks.size());
    for (auto& w : m.wpts) {
      h.add(w.wpt.size()).add(w.sgmt.size()).add(w.clearances);
      for (auto& [k, n] : w.wpt) h.add(static_cast<uint64_t>(k)).add(n);
    }
    mc::state(h);
  }
};

void Step(Run& r) {
  static const std::pair<size_t, size_t> spans[] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
  ++r.steps;
  mc::op();
  int o = mc::choose(34, "operation");
  auto idx = [&](int base) { return static_cast<size_t>(o - base); };
  if (o < 4) r.Pose(idx(0));
  else if (o < 8) r.Trans(idx(4));
  else if (o < 12) r.Guess(idx(8));
  else if (o < 15) r.SgmtGuess(idx(12), r.steps % 3);
  else if (o < 19) r.Wpt(kLinVel, idx(15));
  else if (o < 25) r.Sgmt(kAngVel, spans[o - 19].first, spans[o - 19].second);
  else if (o == 25) r.Counts();
  else if (o < 28) r.Drivetrain(o - 26);
  else if (o == 28) r.Callback();
  else if (o == 29) r.Bumper();
  else if (o < 32) r.WptObstacle(2 * idx(30));
  else if (o == 32) r.SgmtObstacle(1, 3);
  else r.Query();
}

// Every history over the whole interface.
void Histories() {
  Run r;
  int depth = mc::thorough() ? 4 : 3;
  for (int i = 0; i < depth; ++i) {
    Step(r);
    r.Check();
  }
}
// Longer histories of the operations that interact: growth, counts, constraints.
void Growth() {
  Run r;
  int depth = mc::thorough() ? 7 : 6;
  for (int i = 0; i < depth; ++i) {
    ++r.steps;
    mc::op();
    int o = mc::choose(7, "operation");
    if (o < 3) r.Wpt(kLinVel, o == 0 ? 0 : o == 1 ? 1 : 3);
    else if (o == 3) r.Sgmt(kAngVel, 0, 2);
    else if (o == 4) r.Counts();
    else if (o == 5) r.SgmtGuess(1, 2);
    else r.Query();
  }
  r.Check();
}
// Every type of constraint, on every waypoint and every span of longer paths.
void Kinds() {
  Run r;
  int kind = mc::choose(kKinds, "constraint");
  size_t wpts = static_cast<size_t>(mc::choose(mc::thorough() ? 9 : 7, "highest waypoint")) + 1;
  int way = mc::choose(2, "waypoints made before, or by the request");
  if (way == 0) {
    ++r.steps;
    r.Guess(wpts);
  }
  for (int times = 0; times < 2; ++times) {
    ++r.steps;
    mc::op();
    size_t from = static_cast<size_t>(mc::choose(static_cast<int>(wpts) + 1, "from"));
    size_t to = from + static_cast<size_t>(mc::choose(static_cast<int>(wpts - from) + 1, "to, less from"));
    if (from == to) r.Wpt(kind, from);
    else r.Sgmt(kind, from, to);
    r.Check();
    if (!mc::thorough() && wpts > 4) break;
  }
}
// Many requests, waypoints and callbacks.
void Large() {
  Run r;
  int what = mc::choose(6, "much of");
  static const size_t sizes[] = {10, 33, 64, 200, 1030};
  size_t n = mc::pick(sizes, "how many");
  for (size_t i = 0; i < n; ++i) {
    ++r.steps;
    mc::op();
    size_t w = what == 0 ? i : what == 1 ? n - 1 - i : i % 2;
    if (what == 3) r.Callback();
    else if (what == 4) r.Wpt(i % 2 ? kLinAcc : kAngVel, 1);  // all at one waypoint
    else if (what == 5) r.Sgmt(i % 2 ? kLinAcc : kAngVel, 0, 1);
    else if (i % 3 == 2) r.Sgmt(kAngVel, w, w + 1 + i % 2);
    else if (i % 3 == 1) r.Trans(w);
    else r.Wpt(kLinAcc, w);
    if (i == n / 2 && what < 3) r.Counts();
  }
  r.Check();
}

// Requests on waypoints far along: indices beyond 15 and 16 bits.
void Far() {
  static const size_t where[] = {2000, 32767, 32768, 40000, 65535, 65536, 70000};
  Run r;
  ++r.steps;
  mc::op();
  size_t w = mc::pick(where, "waypoint");
  if (w > 3000 && !mc::thorough() && w != 40000 && w != 65536) throw mc::Prune{};
  switch (mc::choose(7, "request")) {
    case 0: r.Wpt(kAngVel, w); break;
    case 1: r.Sgmt(kLinAcc, w - 1, w); break;
    case 2: r.Trans(w); break;
    case 3: r.Pose(w); break;
    case 4: r.Guess(w + 1); break;
    case 5: r.SgmtGuess(w, 1); break;
    default: r.Guess(w + 1), r.Wpt(kAngVel, w), r.Sgmt(kAngVel, w - 1, w), r.Counts(); break;
  }
  r.Check();
}

// Requests that are equal to earlier ones are requests all the same.
void Repeats() {
  static const std::pair<size_t, size_t> spans[] = {{0, 1}, {0, 2}, {1, 2}};
  Run r;
  r.same = true;
  int depth = mc::thorough() ? 5 : 4;
  int kind = mc::choose(kKinds, "constraint");
  if (kind == kPose || kind == kTrans) depth = 3;
  for (int i = 0; i < depth; ++i) {
    ++r.steps;
    mc::op();
    int o = mc::choose(8, "operation");
    auto k = static_cast<size_t>(o);
    if (o < 2) kind == kPose ? r.Pose(k) : kind == kTrans ? r.Trans(k) : r.Wpt(kind, k);
    else if (o < 5) r.Sgmt(kind, spans[o - 2].first, spans[o - 2].second);
    else if (o == 5) r.Sgmt(kAngVel, 0, 2);
    else if (o == 6) r.SgmtGuess(1, 1);
    else r.Counts();
  }
  r.Check();
}
// Control interval counts of every size, as configured, and kept by what follows.
void Configured() {
  static const size_t sizes[] = {0, 1, 2, 3, 39, 40, 41, 100, 256, 1000, 65536, 100000};
  Run r;
  ++r.steps;
  r.Guess(3);
  std::vector<size_t> c;
  for (int i = 0; i < 3; ++i) c.push_back(mc::pick(sizes, "interval count"));
  int then = mc::choose(5, "then");
  r.Said("ControlIntervalCounts(" + Show(c) + ")");
  r.m.counts = c;
  r.b.ControlIntervalCounts(std::vector<size_t>(c));
  mc::op();
  ++r.steps;
  if (then == 1) r.Guess(5);
  else if (then == 2) r.Sgmt(kAngVel, 2, 4);
  else if (then == 3) r.SgmtGuess(1, 3);
  else if (then == 4) r.Pose(3);
  r.Check();
}
// Drivetrains of any modules, in any order, are kept as they are.
void Robots() {
  static const double places[][2] = {{0.5, 0.25}, {-0.5, 0.25}, {0.5, -0.25}, {-0.5, -0.25}, {0.0, 0.0}, {0.5, 0.25}};
  auto make = [&](bool first) {
    SwerveDrivetrain d;
    static const double masses[] = {45.0, 1e-3, 1e4};
    d.mass = first ? mc::pick(masses, "mass") : 3.0;
    d.moi = first ? mc::pick(masses, "moment of inertia") : 2.0;
    int n = mc::choose(first ? (mc::thorough() ? 6 : 5) : 3, "modules");
    for (int i = 0; i < n; ++i) {
      int k = mc::choose(6, "module");
      d.modules.push_back({{places[k][0], places[k][1]}, k == 5 ? 0.05 : 0.04 - 0.001 * k, 70.0 + (k == 2 ? 5 : -k), k == 4 ? 0.0 : 2.0 + (k == 1)});
    }
    return d;
  };
  SwervePathBuilder b;
  int again = mc::choose(3, "drivetrains set");
  SwerveDrivetrain d;
  for (int i = 0; i <= again; ++i) {
    d = make(i == again && again == 0);
    b.SetDrivetrain(d);
    mc::op();
    if (i == 0) b.PoseWpt(1, 0.0, 0.0, 0.0);
  }
  auto ask = [&](const char* when) {
    MC_CHECK(SameRobot(b.GetPath().drivetrain, d), "%zu modules set after %d other drivetrains: the path's drivetrain is another one %s", d.modules.size(), again, when);
  };
  ask("at once");
  b.ControlIntervalCounts({2});
  b.WptConstraint(2, Distinct(kLinVel, 1).Make());
  b.CalculateInitialGuess();
  ask("after other calls");
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"robots", Robots, 3}, {"repeats", Repeats, 2}, {"configured", Configured, 3}, {"histories", Histories, 2}, {"growth", Growth, 2}, {"kinds", Kinds, 3}, {"large", Large, 2}, {"far", Far, 2}});
}
