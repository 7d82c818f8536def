// C10: the returned solution is exactly the solver's final iterate.
#include "checks/constraints.hpp"
#include "trajopt/constraint/AngularVelocityMaxMagnitudeConstraint.hpp"

namespace {
int64_t g_now = 1'000'000'000'000;  // ns
}
// Whenever the library reads the clock, it is time for the next report.
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept {
  g_now += 100'000'000;
  t->tv_sec = g_now / 1'000'000'000;
  t->tv_nsec = g_now % 1'000'000'000;
  return 0;
}

namespace {

using namespace tp;
using trajopt::SwerveSolution;

SwerveDrivetrain Robot(size_t modules) {
  SwerveDrivetrain d{20, 3, {}};
  for (size_t i = 0; i < modules; ++i) {
    double f = static_cast<double>(i);
    d.modules.push_back({{2.0 + 2.5 * f, i % 2 == 0 ? 1.0 + 3 * f : -2.0 - 3 * f}, 0.05 + 0.01 * f, 1e4, 1e7});
  }
  return d;
}

// A trajectory whose quantities all differ.
bool Generic(Traj& t, const std::vector<size_t>& N, const SwerveDrivetrain& d) {
  size_t n = SampleOfWpt(N, N.size()) + 1;
  t = Traj{};
  for (size_t s = 0; s < N.size(); ++s) t.dt.push_back(0.001 + 0.0001 * static_cast<double>(s));
  t.p.resize(n);
  auto& q = t.p[0];
  q.x = 0.3;
  q.y = -1.1;
  q.c = cos(0.4);
  q.s = sin(0.4);
  q.vx = 0.7;
  q.vy = -0.45;
  q.w = 0.35;
  for (size_t i = 0; i < n; ++i) {
    double f = static_cast<double>(i);
    t.p[i].ax = 0.5 + 0.17 * sin(f);
    t.p[i].ay = -0.9 + 0.13 * cos(1.7 * f);
    t.p[i].al = 1.4 + 0.21 * sin(2.3 * f + 1);
    for (size_t j = 0; j < d.modules.size(); ++j) {
      t.p[i].fx.push_back(0.5 * static_cast<double>(j + 1) + 0.1 * f);
      t.p[i].fy.push_back(-0.25 * static_cast<double>(j * j + 1) + 0.05 * f);
    }
  }
  return Integrate(t, N, d);
}

// A value no other solver variable or iterate has; from flavour 4 on, every magnitude in turn.
constexpr int kFlavours = 18;
double Value(size_t i, int iterate, int flavour) {
  double f = static_cast<double>(i), k = static_cast<double>(iterate);
  static const double magnitudes[] = {1e-300, 5e-324, 1e-17, 1e-14, 1e-11, 1e-8, 1e-5, 0.01, 1e4, 1e8, 1e16, 1e300, 0.0};
  // the last one: values that are no numbers, among others
  if (flavour == kFlavours - 1) return i % 4 == 0 ? 1 + f : i % 4 == 1 ? NAN : (i % 4 == 2 ? 1 : -1) * INFINITY;
  if (flavour >= 4) return ((i / 13 + static_cast<size_t>(iterate)) % 2 ? -1 : 1) * magnitudes[(i + static_cast<size_t>(flavour)) % 13];
  switch (flavour) {
    case 0: return 1 + f + 0.001 * k;
    case 1: return (i % 2 == 0 ? -1 : 1) * (f + 1) * 1e-12 + k * 1e-6;
    case 2: return (i % 3 == 0 ? 1e12 : -1e3) * (1 + f / 7 + k * 1000);
    default: return i % 2 == 0 ? 1.0 / (3 + f) : -k / (7 + f);
  }
}

void Same(const SwerveSolution& s, const std::vector<double>& v, const FieldMap& m, const std::string& what) {
  mc::op();
  auto eq = [&](const std::vector<double>& f, const ivec& map, const char* name) {
    MC_CHECK(f.size() == map.size(), "%s: %s has %zu entries, not %zu", what.c_str(), name, f.size(), map.size());
    for (size_t i = 0; i < f.size(); ++i) {
      double want = v[static_cast<size_t>(map[i])];
      MC_CHECK((f[i] == want || (std::isnan(want) && std::isnan(f[i]))) && std::signbit(f[i]) == std::signbit(want), "%s: %s[%zu] is %.17g, the solver's value is %.17g", what.c_str(),
               name, i, f[i], want);
    }
  };
  eq(s.x, m.x, "x");
  eq(s.y, m.y, "y");
  eq(s.thetacos, m.c, "thetacos");
  eq(s.thetasin, m.s, "thetasin");
  eq(s.vx, m.vx, "vx");
  eq(s.vy, m.vy, "vy");
  eq(s.omega, m.w, "omega");
  eq(s.ax, m.ax, "ax");
  eq(s.ay, m.ay, "ay");
  eq(s.alpha, m.al, "alpha");
  eq(s.dt, m.dt, "dt");
  MC_CHECK(s.moduleFX.size() == m.fx.size() && s.moduleFY.size() == m.fy.size(), "%s: force rows", what.c_str());
  for (size_t i = 0; i < m.fx.size(); ++i) {
    eq(s.moduleFX[i], m.fx[i], "moduleFX row");
    eq(s.moduleFY[i], m.fy[i], "moduleFY row");
  }
}

struct Subject {
  std::vector<size_t> N;
  SwerveDrivetrain d;
  SwervePathBuilder b;
  Subject(std::vector<size_t> N_, size_t modules) : N{N_}, d{Robot(modules)} {
    b.SetDrivetrain(d);
    for (size_t i = 0; i <= N.size(); ++i) {
      double f = static_cast<double>(i);
      b.WptInitialGuessPoint(i, {10 + f, 20 - f, {0.3 + 0.4 * f}});
    }
    b.ControlIntervalCounts(std::move(N_));
  }
};

// The fields mean what their names say: a trajectory of the robot, laid out by
// the fields, is admitted (its quantities all differ, so that fields that swapped
// roles would not fit), and the guess is where the pose fields are.
void Roles(Subject& s, Problem& p, const FieldMap& m, const std::string& what) {
  Traj t;
  std::vector<double> v;
  if (!Generic(t, s.N, s.d)) {
    // too few modules to turn on the spot: nothing but rest is admissible
    t = Traj{};
    size_t n = SampleOfWpt(s.N, s.N.size()) + 1;
    for (size_t k = 0; k < s.N.size(); ++k) t.dt.push_back(0.001);
    t.p.resize(n);
    for (auto& q : t.p) {
      q.fx.resize(s.d.modules.size());
      q.fy.resize(s.d.modules.size());
    }
  } else {
    MC_CHECK(WithinLimits(t, s.d) || s.N.empty(), "harness: the trajectory is not admissible");
  }
  Assign(t, m, s.N, p.init, v);
  Compare(p, v, 0.0, (what + ": a physical trajectory").c_str());
  // the pose the solver starts from is the guess of each waypoint
  for (size_t w = 0; w <= s.N.size(); ++w) {
    size_t i = SampleOfWpt(s.N, w);
    double f = static_cast<double>(w);
    auto at = [&](const ivec& q) { return p.init[static_cast<size_t>(q[i])]; };
    MC_CHECK(std::abs(at(m.x) - (10 + f)) < 1e-6 && std::abs(at(m.y) - (20 - f)) < 1e-6 && std::abs(at(m.c) - cos(0.3 + 0.4 * f)) < 1e-6 &&
                 std::abs(at(m.s) - sin(0.3 + 0.4 * f)) < 1e-6,
             "%s: the pose fields of sample %zu are not those of waypoint %zu", what.c_str(), i, w);
  }
}

// One run of a generator: iterates, then final values; the result is the final
// values. Returns the result.
SwerveSolution Run(SwerveTrajectoryGenerator& g, const FieldMap& m, int iterates, int flavour, bool acceptable, int salt,
                   const std::string& what) {
  std::vector<double> last;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    auto& v = p.EnvDecisionVariables();
    auto set = [&](int k) {
      last.clear();
      for (size_t i = 0; i < v.size(); ++i) {
        last.push_back(Value(i, k, flavour));
        v[i].SetValue(last.back());
      }
    };
    for (int k = 0; k < iterates; ++k) {
      set(salt + k + 1);
      if (p.EnvHasCallback()) MC_CHECK(!p.EnvIterate(k), "%s: stopped although nobody asked", what.c_str());
    }
    set(salt + 100);
    sleipnir::SolverStatus st;
    if (acceptable) st.exitCondition = sleipnir::SolverExitCondition::kSolvedToAcceptableTolerance;
    return st;
  };
  std::optional<SwerveSolution> sol;
  auto err = GenerateText(g, &sol);
  sleipnir::env::Hook() = nullptr;
  MC_CHECK(sol.has_value(), "%s: no solution although the solver succeeded: %s", what.c_str(), err.c_str());
  Same(*sol, last, m, what);
  return *sol;
}

void Layouts() {
  size_t segs = static_cast<size_t>(mc::choose(mc::thorough() ? 5 : 4, "segments"));
  std::vector<size_t> N;
  static const std::vector<size_t> some{1, 2, 4}, all{1, 2, 3, 5};
  for (size_t i = 0; i < segs; ++i) N.push_back(mc::pick(mc::thorough() && segs < 4 ? all : some, "intervals"));
  size_t modules = static_cast<size_t>(mc::choose(6, "modules"));
  if (modules == 0 && segs > 2) throw mc::Prune{};
  Subject s{N, modules};
  auto what = mc::fmt("layout %s, %zu modules", Show(N).c_str(), modules);
  MC_LOG("  %s", what.c_str());
  int iterates = mc::choose(3, "iterations");
  int flavour = mc::choose(5, "values");
  bool acceptable = mc::choose(2, "acceptable tolerance only") == 1;
  SwerveTrajectoryGenerator g{s.b};
  FieldMap m;
  auto p = Capture(g, m, N, modules);
  if (flavour == 0 && iterates == 0) Roles(s, p, m, what);
  Run(g, m, iterates, flavour, acceptable, 0, what);
  if (flavour == 4)
    for (int f = 5; f < kFlavours; ++f) Run(g, m, iterates, f, acceptable, 50 * f, what);
  mc::state(mc::Hash{}.add(what).add(static_cast<uint64_t>(iterates * 10 + flavour)));
}

// The same generator again and again, its copies, and earlier results.
void Again() {
  Subject s{{2, 1, 3}, 2};
  int callbacks = mc::choose(3, "callbacks");
  for (int c = 0; c < callbacks; ++c)
    s.b.AddIntermediateCallback([](SwerveSolution& q, int64_t) {
      // a callback may do what it likes with its solution
      for (auto& x : q.x) x = -1;
      q.vx.clear();
      q.moduleFX.clear();
      q.dt.push_back(5);
    });
  std::vector<SwerveTrajectoryGenerator> gs;
  gs.reserve(4);
  gs.emplace_back(s.b, 3);
  FieldMap m;
  Capture(gs[0], m, s.N, 2);
  std::vector<std::pair<SwerveSolution, std::vector<double>>> kept;
  int depth = mc::thorough() ? 5 : 4;
  std::string said;
  for (int k = 0; k < depth; ++k) {
    int o = mc::choose(6, "step");
    auto& g = gs.back();
    switch (o) {
      case 0:
      case 1: {
        said += o == 0 ? "run; " : "run without iterations; ";
        auto sol = Run(g, m, o == 0 ? 3 : 0, k % 4, k % 2 == 1, 1000 * k, said);
        kept.push_back({sol, sol.x});
        break;
      }
      case 2: {
        said += "fail; ";
        sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
          for (auto& v : p.EnvDecisionVariables()) v.SetValue(NAN);
          sleipnir::SolverStatus st;
          st.exitCondition = sleipnir::SolverExitCondition::kLocallyInfeasible;
          return st;
        };
        std::optional<SwerveSolution> none;
        GenerateText(g, &none);
        MC_CHECK(!none.has_value(), "%s a solution although the solver failed", said.c_str());
        break;
      }
      case 3: {
        said += "go on with a copy; ";
        auto copy = g;
        gs.clear();
        gs.push_back(copy);
        break;
      }
      case 4: {
        said += "go on with a moved one; ";
        auto moved = std::move(g);
        gs.clear();
        gs.push_back(std::move(moved));
        break;
      }
      default: {
        said += "builder changed; ";
        s.b.PoseWpt(4, 1, 1, 1);
        s.b.SetDrivetrain(Robot(5));
        break;
      }
    }
    mc::state(mc::Hash{}.add(said));
  }
  Run(gs.back(), m, 1, 0, false, 9000, said + "run");
  for (auto& k : kept) MC_CHECK(k.first.x == k.second, "%s an earlier result changed", said.c_str());
}

// Iterates, reports and runs that differ from what came before in one variable,
// or agree in one only.
void Alike() {
  static const std::vector<size_t> layouts[] = {{2, 1}, {3}, {1, 1}};
  auto N = mc::pick(layouts, "layout");
  size_t modules = static_cast<size_t>(mc::choose(3, "modules, less one")) + 1;
  int callbacks = mc::choose(2, "callbacks");
  int when = mc::choose(4, "after a report / two reports / an earlier run / an earlier run of the copied generator");
  bool differs = mc::choose(2, "agrees in one variable only") == 0;
  double by = mc::pick({1.0, 1e-13, 1e-7, -0.0}, "by");
  if (callbacks == 0 && when < 2) throw mc::Prune{};
  Subject s{N, modules};
  int reports = 0;
  for (int c = 0; c < callbacks; ++c) s.b.AddIntermediateCallback([&](SwerveSolution&, int64_t) { ++reports; });
  FieldMap m;
  SwerveTrajectoryGenerator first{s.b, 3};
  auto p = Capture(first, m, N, modules);
  // groups: every variable alone, then every pair of fields of the last sample
  for (size_t one = 0; one < p.nvar; ++one) {
    auto what = mc::fmt("layout %s, %zu modules, %s except variable %zu (by %g), case %d", Show(N).c_str(), modules, differs ? "the same" : "all different", one, by, when);
    // (the base has zeros of either sign where by is a zero)
    auto base = [&](size_t i) { return by == 0 && (i == one || !differs) ? 0.0 : 0.5 + 0.25 * static_cast<double>(i); };
    auto value = [&](size_t i) {
      bool changed = (i == one) == differs;
      return !changed ? base(i) : by == 0 ? -0.0 : base(i) * (1 + by);
    };
    auto play = [&](SwerveTrajectoryGenerator& g, int iterates, bool final) {
      sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& q, const sleipnir::SolverConfig&) {
        auto& v = q.EnvDecisionVariables();
        for (int k = 0; k < iterates; ++k) {
          for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(base(i));
          if (q.EnvHasCallback()) MC_CHECK(!q.EnvIterate(k), "%s: stopped although nobody asked", what.c_str());
        }
        for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(final ? value(i) : base(i));
        return sleipnir::SolverStatus{};
      };
      std::optional<SwerveSolution> sol;
      auto err = GenerateText(g, &sol);
      sleipnir::env::Hook() = nullptr;
      MC_CHECK(sol.has_value(), "%s: no solution although the solver succeeded: %s", what.c_str(), err.c_str());
      return *sol;
    };
    std::vector<double> want;
    for (size_t i = 0; i < p.nvar; ++i) want.push_back(value(i));
    reports = 0;
    if (when < 2) {
      Same(play(first, when + 1, true), want, m, what);
      MC_CHECK(reports == when + 1, "%s: %d reports, not %d", what.c_str(), reports, when + 1);
    } else {
      play(first, 1, false);
      if (when == 2) {
        Same(play(first, 0, true), want, m, what);
      } else {
        auto copy = first;
        Same(play(copy, 0, true), want, m, what);
      }
    }
    mc::state(mc::Hash{}.add(what).add(static_cast<uint64_t>(callbacks)));
  }
}

void Large() {
  static const std::vector<size_t> layouts[] = {{150}, {40, 40, 40, 40}, std::vector<size_t>(60, 1), {1, 100, 2}, {300}, {2, 520}, std::vector<size_t>(300, 1), {5000}, {33000, 2}, {2, 66000}};
  auto N = mc::pick(layouts, "layout");
  if (N.back() > 60000 && !mc::thorough()) throw mc::Prune{};
  size_t modules = mc::pick({size_t{1}, size_t{5}, size_t{9}, size_t{13}, size_t{40}}, "modules");
  if ((N[0] + N.back() > 4000 && modules > 1) || (modules == 40 && N.size() > 100)) throw mc::Prune{};
  auto what = mc::fmt("layout %s, %zu modules", Show(N).c_str(), modules);
  Subject s{N, modules};
  SwerveTrajectoryGenerator g{s.b};
  FieldMap m;
  auto p = Capture(g, m, N, modules);
  for (int flavour = 0; flavour < kFlavours; ++flavour) Run(g, m, 2, flavour, false, 50 * flavour, what);
}

// Whatever the path asks for, and however near the final values are to what it asks for, to the guess, or to a limit.
void Circumstances() {
  static const std::vector<size_t> layouts[] = {{1}, {2, 1}, {1, 3, 1}};
  auto N = mc::pick(layouts, "layout");
  size_t n = SampleOfWpt(N, N.size()) + 1, modules = 2;
  int kind = mc::choose(kKinds + 4, "request");
  bool span = mc::flip("on everything");
  bool diagnostics = mc::flip("diagnostics"), report = mc::flip("with reports");
  int near = mc::choose(4, "values");
  double by = mc::pick({0.0, 1e-13, 1e-9, -1e-6, 1e-3, -0.04}, "away by");
  int status = mc::choose(2, "acceptable tolerance only");
  auto d = Robot(modules);
  SwervePathBuilder b;
  b.SetDrivetrain(d);
  const double X = 1.25, Y = -0.5, T = 0.75;
  for (size_t i = 0; i <= N.size(); ++i) {
    double f = near == 1 ? 0 : static_cast<double>(i);
    b.WptInitialGuessPoint(i, {X + f, Y + f, {T + f}});
  }
  Con con{kind, {}};
  switch (kind) {
    case kPose: con = {kPose, {X, Y, T}}; break;
    case kTrans: con = {kTrans, {X, Y}}; break;
    case kLinVel: con = {kLinVel, {0}}; break;
    case kLinDir: con = {kLinDir, {T}}; break;
    case kAngVel: con = {kAngVel, {0}}; break;
    case kLinAcc: con = {kLinAcc, {0}}; break;
    case kPointAt: con = {kPointAt, {X + cos(T), Y + sin(T), 0}}; break;
    case kPointPoint: con = {kPointPoint, {0, 0, X, Y + 2, 2}}; break;
    case kLinePoint: con = {kLinePoint, {1, 0, -1, 0, X, Y + 3, 1}}; break;
    case kPointLine: con = {kPointLine, {0, 0, X - 1, Y + 2, X + 1, Y + 2, 2}}; break;
    default: break;
  }
  for (size_t i = 0; i <= N.size(); ++i) {
    if (!span && i < N.size()) continue;
    if (kind < kKinds) b.WptConstraint(i, con.Make());
    else if (kind == kKinds) b.PoseWpt(i, X, Y, T);
    else if (kind == kKinds + 1) b.TranslationWpt(i, X, Y, T);
    else if (kind == kKinds + 2) b.WptObstacle(i, {0.5, {{X, Y + 0.6}}});
    else b.WptConstraint(i, Con{kLinVel, {0}}.Make()), b.WptConstraint(i, Con{kAngVel, {0}}.Make());
  }
  if (span && kind < kKinds) b.SgmtConstraint(0, N.size(), con.Make());
  if (kind == kKinds + 2) b.AddBumpers({0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
  if (report) b.AddIntermediateCallback([](SwerveSolution&, int64_t) {});
  auto c = N;
  b.ControlIntervalCounts(std::move(c));
  auto what = mc::fmt("layout %s, request %d%s, values %d away by %g%s%s", Show(N).c_str(), kind, span ? " everywhere" : "", near, by, diagnostics ? ", diagnostics" : "",
                      report ? ", with reports" : "");
  SwerveTrajectoryGenerator g{b};
  FieldMap m;
  auto p = Capture(g, m, N, modules);
  std::vector<double> v(p.nvar);
  auto put = [&](const ivec& f, auto value) {
    for (size_t i = 0; i < f.size(); ++i) v[static_cast<size_t>(f[i])] = value(i) + by * (1 + 0.01 * static_cast<double>(i));
  };
  auto base = [&](double x, double w) { return [=](size_t i) { return near == 3 ? w * (1 + static_cast<double>(i)) : x; }; };
  put(m.x, [&](size_t i) { return near == 2 ? p.init[static_cast<size_t>(m.x[i])] : base(X, 0.3)(i); });
  put(m.y, [&](size_t i) { return near == 2 ? p.init[static_cast<size_t>(m.y[i])] : base(Y, 0.4)(i); });
  put(m.c, [&](size_t i) { return near == 2 ? p.init[static_cast<size_t>(m.c[i])] : base(cos(T), 0.1)(i); });
  put(m.s, [&](size_t i) { return near == 2 ? p.init[static_cast<size_t>(m.s[i])] : base(sin(T), 0.2)(i); });
  for (auto* f : {&m.vx, &m.vy, &m.w, &m.ax, &m.ay, &m.al}) put(*f, base(0, 0.7));
  for (auto* rows : {&m.fx, &m.fy})
    for (auto& f : *rows) put(f, base(0, 1.1));
  for (auto step : m.dt) v[static_cast<size_t>(step)] = near == 3 ? 0.02 * (1 + step) : near == 2 ? p.init[static_cast<size_t>(step)] : std::abs(by);
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& q, const sleipnir::SolverConfig&) {
    auto& dv = q.EnvDecisionVariables();
    for (int k = 0; k < 2; ++k) {
      if (k == 1 || report)
        for (size_t i = 0; i < dv.size(); ++i) dv[i].SetValue(k == 1 ? v[i] : 100 + static_cast<double>(i));
      if (q.EnvHasCallback() && report) MC_CHECK(!q.EnvIterate(k), "%s: stopped although nobody asked", what.c_str());
    }
    sleipnir::SolverStatus st;
    if (status) st.exitCondition = sleipnir::SolverExitCondition::kSolvedToAcceptableTolerance;
    return st;
  };
  std::optional<SwerveSolution> sol;
  auto err = GenerateText(g, &sol, diagnostics);
  sleipnir::env::Hook() = nullptr;
  MC_CHECK(sol.has_value(), "%s: no solution although the solver succeeded: %s", what.c_str(), err.c_str());
  MC_CHECK(sol->x.size() == n, "%s: %zu samples", what.c_str(), sol->x.size());
  Same(*sol, v, m, what);
  mc::state(mc::Hash{}.add(what).add(static_cast<uint64_t>(status)));
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"layouts", Layouts, 4}, {"again", Again, 3}, {"alike", Alike, 3}, {"large", Large, 2}, {"circumstances", Circumstances, 4}});
}
