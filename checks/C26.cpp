// C26: a generation runs the solver once, with the documented settings, and is silent.
#include <sys/mman.h>
#include <unistd.h>

#include <iostream>

#include "checks/constraints.hpp"
#include "checks/ffi_ops.hpp"

namespace {

using namespace tp;
using Exit = sleipnir::SolverExitCondition;

/// Standard output and error while the library is at work.
class Silence {
 public:
  Silence() {
    std::fflush(nullptr);
    static int file = memfd_create("output", 0);
    m_file = file;
    (void)!ftruncate(m_file, 0);
    lseek(m_file, 0, SEEK_SET);
    for (int fd : {1, 2}) {
      m_kept[fd] = dup(fd);
      dup2(m_file, fd);
    }
  }
  ~Silence() { Restore(); }
  std::string Text() {
    std::cout.flush();
    std::cerr.flush();
    std::fflush(nullptr);
    std::string s(static_cast<size_t>(lseek(m_file, 0, SEEK_END)), 0);
    s.resize(static_cast<size_t>(std::max<ssize_t>(0, pread(m_file, s.data(), s.size(), 0))));
    Restore();
    return s;
  }

 private:
  void Restore() {
    if (m_kept[1] < 0) return;
    std::fflush(nullptr);
    for (int fd : {1, 2}) {
      dup2(m_kept[fd], fd);
      close(m_kept[fd]);
      m_kept[fd] = -1;
    }
  }
  int m_file, m_kept[3] = {-1, -1, -1};
};

/// What one run of the solver is asked for.
struct Asked {
  int runs = 0;
  sleipnir::SolverConfig config;
  size_t variables = 0, equalities = 0, inequalities = 0, costs = 0;
  bool foreign = false;
  std::vector<double> at;  // every constraint and the objective at a few points
};

sleipnir::SolverStatus Play(Asked& a, sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& c, Exit e, int iterations) {
  ++a.runs;
  a.config = c;
  auto before = [&] {
    std::vector<double> x;
    for (auto& v : p.EnvDecisionVariables()) x.push_back(v.Value());
    return x;
  }();
  auto pr = Problem::Read(p);
  a.variables = pr.nvar;
  a.equalities = pr.nEq;
  a.inequalities = pr.nIneq;
  a.costs = pr.hasCost;
  a.foreign = pr.tape.foreign;
  a.at.clear();
  for (int k = 0; k < 2; ++k) {
    std::vector<double> x;
    for (size_t i = 0; i < pr.nvar; ++i) x.push_back(std::sin(1.0 + static_cast<double>(i) * (k + 0.5)) + 0.25 * k);
    auto& v = pr.tape.Eval(x);
    a.at.insert(a.at.end(), v.begin(), v.end());
  }
  for (size_t i = 0; i < before.size(); ++i) p.EnvDecisionVariables()[i].SetValue(before[i]);
  sleipnir::SolverStatus st;
  st.exitCondition = e;
  for (int k = 0; k < iterations; ++k) {
    for (auto& v : p.EnvDecisionVariables()) v.SetValue(v.Value() + 0.125);
    if (p.EnvHasCallback() && p.EnvIterate(k)) {
      st.exitCondition = Exit::kCallbackRequestedStop;
      break;
    }
  }
  return st;
}

void Judge(const Asked& a, bool diagnostics, const std::string& printed, const std::string& what) {
  mc::op();
  MC_CHECK(a.runs == 1, "%s: the solver ran %d times", what.c_str(), a.runs);
  const sleipnir::SolverConfig usual;
  auto& c = a.config;
  MC_CHECK(c.diagnostics == diagnostics, "%s: diagnostics %s", what.c_str(), c.diagnostics ? "although nobody asked" : "asked for, but not requested");
  MC_CHECK(c.tolerance == 1e-4, "%s: the solver's tolerance is %g", what.c_str(), c.tolerance);
  MC_CHECK(c.maxIterations == usual.maxIterations && c.timeout == usual.timeout && c.acceptableTolerance == usual.acceptableTolerance &&
               c.maxAcceptableIterations == usual.maxAcceptableIterations && c.feasibleIPM == usual.feasibleIPM && c.spy == usual.spy,
           "%s: the solver is limited to %d iterations, %g s, acceptable tolerance %g (%d iterations), feasible IPM %d, spy %d", what.c_str(),
           c.maxIterations, c.timeout.count(), c.acceptableTolerance, c.maxAcceptableIterations, c.feasibleIPM, c.spy);
  MC_CHECK(printed.empty(), "%s: the library wrote: %s", what.c_str(), printed.substr(0, 200).c_str());
  MC_CHECK(a.costs == 1 && !a.foreign, "%s: the problem is not complete", what.c_str());
}

bool SameValues(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i] && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
  return true;
}

template <class B>
void Prepare(B& b, int which) {
  b.Do(ffi::Robot(0));
  b.Do({ffi::kPose, 0, 0, {0.5, 0.25, 0.125}, {}, {}});
  b.Do({ffi::kEmpty, 1, 0, {2.5, 1.25, 0.5}, {}, {}});
  if (which == 1) b.Do({ffi::kTranslation, 2, 0, {1.5, -1.25, 0.75}, {}, {}});
  b.Do({ffi::kCounts, 0, 0, {}, {}, which == 1 ? std::vector<size_t>{1, 2} : std::vector<size_t>{2}});
}

const Exit kEnds[] = {Exit::kSuccess, Exit::kLocallyInfeasible, Exit::kMaxIterationsExceeded};

/// Every history of generations by two generators, their copies, new generators and the foreign interface.
void Histories() {
  ffi::Cpp cpp[2];
  ffi::Native native;
  Prepare(cpp[0], 0);
  Prepare(cpp[1], 1);
  Prepare(native, 0);
  std::optional<SwerveTrajectoryGenerator> g[2];
  g[0].emplace(cpp[0].b, 5);
  g[1].emplace(cpp[1].b, 6);
  std::optional<Asked> first[2];
  std::string what;
  int depth = mc::thorough() ? 4 : 3;
  for (int k = 0; k < depth; ++k) {
    int who = mc::choose(5, "by");
    int ask = mc::choose(who == 3 ? 2 : 3, "diagnostics");
    int end = k + 1 < depth ? mc::choose(3, "ends") : 0;
    bool diagnostics = ask == 1;
    static const char* const names[] = {"generator A", "generator B", "a new generator of A's path", "the foreign-function interface", "a copy of generator A"};
    what += mc::fmt("%s%s%s (exit %d)", k > 0 ? "; " : "", names[who], ask == 0 ? ", no diagnostics" : ask == 1 ? ", diagnostics" : "", static_cast<int>(kEnds[end]));
    MC_LOG("  %s", what.c_str());
    Asked a;
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& c) { return Play(a, p, c, kEnds[end], 2); };
    std::string printed;
    {
      Silence s;
      auto run = [&](SwerveTrajectoryGenerator& q) {
        if (ask == 2) (void)q.Generate();
        else (void)q.Generate(diagnostics);
      };
      if (who < 2) {
        run(*g[who]);
      } else if (who == 2) {
        SwerveTrajectoryGenerator own{cpp[0].b, 7};
        run(own);
      } else if (who == 3) {
        try {
          native.b->generate(diagnostics, 8);
        } catch (const std::exception&) {
        }
      } else {
        auto copy = *g[0];
        run(copy);
      }
      printed = s.Text();
    }
    sleipnir::env::Hook() = nullptr;
    Judge(a, diagnostics, printed, what);
    auto& f = first[who == 1 ? 1 : 0];
    if (!f) f = a;
    MC_CHECK(a.variables == f->variables && a.equalities == f->equalities && a.inequalities == f->inequalities && SameValues(a.at, f->at),
             "%s: the problem is not the one of the path's first generation: %zu variables, %zu and %zu constraints instead of %zu, %zu and %zu",
             what.c_str(), a.variables, a.equalities, a.inequalities, f->variables, f->equalities, f->inequalities);
    mc::state(mc::Hash{}.add(what));
  }
}

/// Paths of every kind: settings do not depend on the path, and building it is silent.
void Paths() {
  static const std::vector<size_t> layouts[] = {{}, {1}, {2}, {1, 1}, {3, 1, 2}, {40}, {40, 40, 40, 40, 40}, {300}, {600}, {1300, 900}, std::vector<size_t>(70, 1), std::vector<size_t>(40, 30)};
  auto N = mc::pick(layouts, "layout");
  int modules = mc::choose(5, "modules") * (mc::thorough() ? 2 : 1);
  int extra = mc::choose(6, "constraints, obstacle, guesses, callbacks, everything, none");
  bool diagnostics = mc::choose(2, "diagnostics") == 1;
  int handle = mc::choose(3, "handle") * 1000 - 1;
  if (modules == 0 && N.size() > 2) throw mc::Prune{};
  auto what = mc::fmt("layout %s, %d modules, variant %d", Show(N).c_str(), modules, extra);
  MC_LOG("  %s", what.c_str());
  Asked a;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& c) { return Play(a, p, c, Exit::kSuccess, 1); };
  std::string printed;
  {
    Silence s;
    SwervePathBuilder b;
    SwerveDrivetrain d{20, 3, {}};
    for (int i = 0; i < modules; ++i) d.modules.push_back({{0.5 + i, i % 2 == 0 ? 1.0 : -1.0}, 0.05, 100.0, 2.0});
    b.SetDrivetrain(d);
    if (extra == 1 || extra == 4) b.AddBumpers(trajopt::Bumpers{0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
    b.PoseWpt(0, 0.5, 0.25, 0.125);
    if (!N.empty()) b.TranslationWpt(N.size(), 1.0, 2.0);
    if (extra == 0 || extra == 4) b.WptConstraint(0, trajopt::LinearVelocityMaxMagnitudeConstraint{1.0});
    if ((extra == 0 || extra == 4) && !N.empty()) b.SgmtConstraint(0, N.size(), trajopt::AngularVelocityMaxMagnitudeConstraint{1.0});
    if (extra == 1 || extra == 4) b.WptObstacle(0, trajopt::Obstacle{0.5, {{3.0, 4.0}, {4.0, 4.0}}});
    if ((extra == 2 || extra == 4) && !N.empty()) b.SgmtInitialGuessPoints(0, {{1.0, 1.0, {0.5}}, {2.0, 1.0, {1.5}}});
    if (extra == 3 || extra == 4) b.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) {});
    b.ControlIntervalCounts(std::vector<size_t>(N));
    b.CalculateInitialGuess();
    SwerveTrajectoryGenerator g{b, handle};
    auto r = g.Generate(diagnostics);
    if (r.has_value()) trajopt::HolonomicTrajectory t{*r};
    trajopt::rsffi::cancel_all();
    trajopt::GetCancellationFlag() = 0;
    printed = s.Text();
  }
  sleipnir::env::Hook() = nullptr;
  Judge(a, diagnostics, printed, what);
  mc::state(mc::Hash{}.add(what).add(static_cast<uint64_t>(handle + diagnostics)));
}

/// One of the calls of the foreign interface, with fitting and unfitting arguments.
ffi::Call One(int k) {
  if (k < 4) return ffi::Robot(k);
  k -= 4;
  static const int polygons[][2] = {{3, 3}, {2, 2}, {4, 4}, {3, 2}, {2, 3}, {1, 4}};
  if (k < 6) return ffi::Polygon(0, 2, static_cast<size_t>(polygons[k][0]), static_cast<size_t>(polygons[k][1]), 0);
  k -= 6;
  static const int fixed[] = {ffi::kBumpers, ffi::kPose, ffi::kTranslation, ffi::kEmpty, ffi::kWptVelDir, ffi::kWptVelMax, ffi::kWptAngVel, ffi::kWptAccel,
                              ffi::kWptPointAt, ffi::kSgmtVelDir, ffi::kSgmtVelMax, ffi::kSgmtAngVel, ffi::kSgmtAccel, ffi::kSgmtPointAt, ffi::kCircle, ffi::kCallback};
  if (k < 16) return {fixed[k], ffi::Indices(fixed[k]) == 2 ? 0u : 1u, 2, ffi::Args(fixed[k], k % 2), {}, {}};
  k -= 16;
  if (k < 2) return {ffi::kGuesses, 1, 0, k == 0 ? std::vector<double>{} : std::vector<double>{1, 2, 3, 4, 5, 6}, {}, {}};
  return {ffi::kCounts, 0, 0, {}, {}, {2, 3}};
}
constexpr int kOnes = 4 + 6 + 16 + 2 + 1;

/// Every pair of calls, made once or often, then a generation.
template <class B>
void Calls() {
  int first = mc::choose(kOnes, "call"), second = mc::choose(kOnes, "call");
  int times = mc::pick({1, 3, 12}, "times");
  bool diagnostics = mc::choose(2, "diagnostics") == 1;
  if (!mc::thorough() && times > 1 && first != second && diagnostics) throw mc::Prune{};
  auto what = mc::fmt("%s: %s, %s, %d times", B::Who(), One(first).Show().c_str(), One(second).Show().c_str(), times);
  MC_LOG("  %s", what.c_str());
  Asked a;
  ffi::Events().clear();
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& c) { return Play(a, p, c, Exit::kSuccess, 1); };
  std::string printed;
  {
    Silence s;
    B b;
    Prepare(b, 1);
    for (int k = 0; k < times; ++k) {
      b.Do(One(first));
      b.Do(One(second));
    }
    b.Generate(diagnostics, 3);
    B::Cancel();
    trajopt::GetCancellationFlag() = 0;
    printed = s.Text();
  }
  sleipnir::env::Hook() = nullptr;
  Judge(a, diagnostics, printed, what);
  mc::state(mc::Hash{}.add(what).add(static_cast<uint64_t>(diagnostics)));
}

/// Unusual requests: valid, if odd, paths are built, generated and converted in silence, with the usual settings; once and again.
void Odd() {
  struct Request {
    const char* name;
    std::function<void(SwervePathBuilder&)> make;
  };
  using trajopt::Obstacle;
  using trajopt::Bumpers;
  static const auto all = [] {
    std::vector<Request> r{{"nothing", [](SwervePathBuilder&) {}}};
    static const Con cons[] = {{kPose, {0.5, 0.25, 0.125}}, {kPose, {1e6, -1e6, 700}}, {kTrans, {0, 0}}, {kLinVel, {0}}, {kLinVel, {1e9}}, {kLinDir, {-40}}, {kAngVel, {0}},
                               {kAngVel, {1e9}}, {kLinAcc, {0}}, {kPointAt, {4, 4, 0}}, {kPointAt, {0.5, 0.25, 3.2}}, {kPointAt, {4, 4, 9}}, {kPointPoint, {0, 0, 4, 4, 0}},
                               {kPointPoint, {1e4, 0, 0.5, 0.25, 1e5}}, {kLinePoint, {0.5, 0.5, -0.5, 0.5, 0, 0, 0}}, {kPointLine, {0, 0, 4, 4, 4.0001, 4, 5}}};
    for (auto& c : cons) {
      r.push_back({"a constraint on the waypoint", [&c](SwervePathBuilder& b) { b.WptConstraint(1, c.Make()); }});
      r.push_back({"a constraint on the path", [&c](SwervePathBuilder& b) { b.SgmtConstraint(0, 2, c.Make()); }});
      r.push_back({"a constraint twice", [&c](SwervePathBuilder& b) { b.WptConstraint(0, c.Make()), b.WptConstraint(0, c.Make()); }});
    }
    static const std::vector<Translation2d> shapes[] = {{{0, 0}}, {{0.5, 0.25}, {2, 2}}, {{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{0, 0}, {4, 4}, {4, 0}, {0, 4}}, {{0, 0}, {0, 4}, {4, 4}, {4, 0}},
                                                        {{0, 0}, {4, 0}, {1, 1}, {0, 4}}};
    for (auto& p : shapes)
      for (double radius : {0.0, 0.5, 100.0}) {
        r.push_back({"an obstacle", [&p, radius](SwervePathBuilder& b) {
                       b.AddBumpers(Bumpers{0.0, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
                       b.SgmtObstacle(0, 2, Obstacle{radius, p});
                     }});
        r.push_back({"an obstacle without bumpers", [&p, radius](SwervePathBuilder& b) { b.WptObstacle(1, Obstacle{radius, p}); }});
        r.push_back({"bumpers without obstacles", [&p, radius](SwervePathBuilder& b) { b.AddBumpers(Bumpers{radius, p}); }});
      }
    auto robot = [&r](const char* name, SwerveDrivetrain d) { r.push_back({name, [d](SwervePathBuilder& b) { b.SetDrivetrain(d); }}); };
    robot("a robot without modules", {20, 3, {}});
    robot("modules in one place", {20, 3, {{{0, 0}, 0.05, 100, 2}, {{0, 0}, 0.05, 100, 2}}});
    robot("no torque", {20, 3, {{{0.5, 0.5}, 0.05, 100, 0}, {{-0.5, 0.5}, 0.05, 0, 2}}});
    robot("no mass", {0, 0, {{{0.5, 0.5}, 0.05, 100, 2}, {{-0.5, 0.5}, 0.05, 100, 2}}});
    robot("enormous", {1e9, 1e9, {{{5e3, 5e3}, 50, 1e6, 1e9}, {{-5e3, 5e3}, 50, 1e6, 1e9}}});
    r.push_back({"many guesses", [](SwervePathBuilder& b) { b.SgmtInitialGuessPoints(0, std::vector<trajopt::Pose2d>(50, {1.0, 2.0, {9.0}})); }});
    r.push_back({"enormous guesses", [](SwervePathBuilder& b) { b.WptInitialGuessPoint(1, {1e200, -1e200, {1e9}}); }});
    r.push_back({"waypoints in one place", [](SwervePathBuilder& b) { b.PoseWpt(1, 0.5, 0.25, 0.125), b.PoseWpt(2, 0.5, 0.25, 0.125); }});
    r.push_back({"pose given twice", [](SwervePathBuilder& b) { b.PoseWpt(1, 2, 2, 2), b.TranslationWpt(1, 3, 3, 3), b.PoseWpt(1, 4, 4, 4); }});
    r.push_back({"counts given twice", [](SwervePathBuilder& b) { b.ControlIntervalCounts({7, 7}); }});
    r.push_back({"callbacks", [](SwervePathBuilder& b) { for (int i = 0; i < 40; ++i) b.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) {}); }});
    return r;
  }();
  auto& request = all[static_cast<size_t>(mc::choose(static_cast<int>(all.size()), "request"))];
  int end = mc::choose(10, "exit condition");
  int values = mc::choose(mc::thorough() ? 5 : 3, "final values");
  int iterations = mc::pick({0, 3, 6000}, "iterations");
  if (iterations > 3 && (values > 0 || (!mc::thorough() && &request != &all[0] && &request != &all.back()))) throw mc::Prune{};
  bool diagnostics = mc::flip("diagnostics");
  static const Exit ends[] = {Exit::kSuccess, Exit::kSolvedToAcceptableTolerance, Exit::kCallbackRequestedStop, Exit::kTooFewDOFs, Exit::kLocallyInfeasible,
                              Exit::kFeasibilityRestorationFailed, Exit::kNonfiniteInitialCostOrConstraints, Exit::kDivergingIterates, Exit::kMaxIterationsExceeded, Exit::kTimeout};
  auto what = mc::fmt("%s (%d), exit %d after %d iterations, values %d%s", request.name, static_cast<int>(&request - all.data()), static_cast<int>(ends[end]), iterations, values,
                      diagnostics ? ", diagnostics" : "");
  MC_LOG("  %s", what.c_str());
  Asked a[2];
  std::string printed[2];
  int run = 0;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& c) {
    auto st = Play(a[run], p, c, ends[end], iterations);
    static const double v[] = {0, NAN, 0.0, -1.0, 1e300};
    if (values > 0)
      for (auto& x : p.EnvDecisionVariables()) x.SetValue(v[values]);
    return st;
  };
  {
    std::optional<Silence> s{std::in_place};
    SwervePathBuilder b;
    b.SetDrivetrain({20, 3, {{{0.5, 0.5}, 0.05, 100, 2}, {{-0.5, -0.25}, 0.05, 100, 2}}});
    b.PoseWpt(0, 0.5, 0.25, 0.125);
    b.WptInitialGuessPoint(1, {1.0, 1.5, {2.0}});
    b.TranslationWpt(2, 2.0, 1.0);
    request.make(b);
    b.ControlIntervalCounts({2, 1});
    b.CalculateInitialGuess();
    SwerveTrajectoryGenerator g{b, 3};
    for (; run < 2; ++run) {
      auto r = g.Generate(diagnostics);
      if (r.has_value()) trajopt::HolonomicTrajectory t{*r};
      printed[run] = s->Text();
      s.emplace();
    }
  }
  sleipnir::env::Hook() = nullptr;
  for (int k = 0; k < 2; ++k) Judge(a[k], diagnostics, printed[k], what + (k ? ", the second time" : ""));
  MC_CHECK(a[0].variables == a[1].variables && a[0].equalities == a[1].equalities && a[0].inequalities == a[1].inequalities && SameValues(a[0].at, a[1].at),
           "%s: the problem is another one the second time", what.c_str());
  mc::state(mc::Hash{}.add(what));
}

}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, {{"histories", Histories, 3}, {"paths", Paths, 3}, {"calls", Calls<ffi::Cpp>, 4}, {"foreign-calls", Calls<ffi::Native>, 4}, {"odd", Odd, 4}}); }
