// C11: generation succeeds exactly when the solver did, else explains why.
#include "checks/ffi_ops.hpp"

namespace {
int64_t g_now = 1'000'000'000'000;
}
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept {
  t->tv_sec = g_now / 1'000'000'000;
  t->tv_nsec = g_now % 1'000'000'000;
  return 0;
}

namespace {

using namespace tp;
using Exit = sleipnir::SolverExitCondition;
using trajopt::SwerveSolution;

const Exit kAll[] = {Exit::kSuccess, Exit::kSolvedToAcceptableTolerance, Exit::kCallbackRequestedStop, Exit::kTooFewDOFs, Exit::kLocallyInfeasible,
                     Exit::kFeasibilityRestorationFailed, Exit::kNonfiniteInitialCostOrConstraints, Exit::kDivergingIterates,
                     Exit::kMaxIterationsExceeded, Exit::kTimeout};

/// What the solver does in one run.
struct Plan {
  Exit exit = Exit::kSuccess;
  int iterations = 0;
  int cancelBefore = -1;     // iteration before which somebody cancels; `iterations`: after the last one
  bool byCallback = false;   // ... from the progress callback of that iteration
  bool cancelEarly = false;  // before the generation starts
  int values = 0;            // the final values: distinct, not numbers, zeros, negative, enormous, as found, tiny
  std::string throws;
  std::string Show() const {
    return mc::fmt("exit %d after %d iterations%s%s%s%s", static_cast<int>(exit), iterations,
                   cancelBefore >= 0 ? mc::fmt(", cancelled before iteration %d%s", cancelBefore, byCallback ? " by a callback" : "").c_str() : "",
                   cancelEarly ? ", a request before the start" : "", mc::fmt(", values of kind %d", values).c_str(), throws.empty() ? "" : ", throws");
  }
};
int g_callbackCancels = -1, g_iteration = -1;

struct Got {
  int kind = -1;  // 0 solution, 1 error, 2 exception
  std::string text;
  std::vector<double> x, timestamps;
};

/// What the solver's run gives when it is the run the generation makes.
struct Expect {
  int kind;
  std::string text;
  double base;
};

double g_base = 0;

template <class F>
void Run(const Plan& p, F generate, bool diagnostics, const std::string& what) {
  int solves = 0, evaluated = 0;
  Exit reported = p.exit;
  double base = g_base += 10000;
  trajopt::GetCancellationFlag() = p.cancelEarly ? 1 : 0;
  g_callbackCancels = p.byCallback ? p.cancelBefore : -1;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& prob, const sleipnir::SolverConfig& config) {
    ++solves;
    MC_CHECK(config.diagnostics == diagnostics, "%s: diagnostics %d reach the solver as %d", what.c_str(), diagnostics, config.diagnostics);
    auto& v = prob.EnvDecisionVariables();
    for (int k = 0; k < p.iterations; ++k) {
      g_iteration = k;
      g_now += 100'000'000;
      if (k == p.cancelBefore && !p.byCallback) trajopt::GetCancellationFlag() = 1;
      for (auto& x : v) x.SetValue(-7.0 - k);
      ++evaluated;
      if (prob.EnvIterate(k)) {
        reported = Exit::kCallbackRequestedStop;
        sleipnir::SolverStatus st;
        st.exitCondition = reported;
        return st;
      }
    }
    if (p.iterations == p.cancelBefore && !p.byCallback) trajopt::GetCancellationFlag() = 1;
    for (size_t i = 0; i < v.size(); ++i) 
      if (p.values != 5) v[i].SetValue(p.values == 1 ? (i % 2 == 0 ? NAN : HUGE_VAL) : p.values == 2 ? 0.0 : p.values == 3 ? -3.0 : p.values == 4 ? 1e300 : p.values == 6 ? 1e-320 : base + static_cast<double>(i));
    if (!p.throws.empty()) throw std::runtime_error{p.throws};
    sleipnir::SolverStatus st;
    st.exitCondition = p.exit;
    return st;
  };
  Got g;
  try {
    generate(g);
  } catch (const mc::Violation&) {
    throw;
  } catch (const std::exception& x) {
    g.kind = 2;
    g.text = x.what();
  }
  sleipnir::env::Hook() = nullptr;
  trajopt::GetCancellationFlag() = 0;
  mc::op();
  bool thrown = !p.throws.empty() && reported == p.exit;
  MC_CHECK(solves == 1, "%s: the solver ran %d times", what.c_str(), solves);
  if (p.cancelBefore >= 0 && p.cancelBefore < p.iterations) {
    MC_CHECK(evaluated == p.cancelBefore + 1, "%s: stopped in iteration %d", what.c_str(), evaluated - 1);
    MC_CHECK(reported == Exit::kCallbackRequestedStop, "%s: not stopped", what.c_str());
  } else {
    MC_CHECK(evaluated == p.iterations, "%s: stopped in iteration %d although nobody cancelled this generation", what.c_str(), evaluated - 1);
  }
  if (thrown) {
    MC_CHECK(g.kind == 2 && g.text == p.throws, "%s: the solver's exception does not reach the caller (%d, \"%s\")", what.c_str(), g.kind, g.text.c_str());
    mc::count("exceptions");
    return;
  }
  if (reported == Exit::kSuccess || reported == Exit::kSolvedToAcceptableTolerance) {
    MC_CHECK(g.kind == 0, "%s: no solution but \"%s\" although the solver reports: %s", what.c_str(), g.text.c_str(),
             std::string{sleipnir::ToMessage(reported)}.c_str());
    MC_CHECK(!g.x.empty(), "%s: an empty solution", what.c_str());
    for (double d : g.x)
      MC_CHECK(p.values == 0 ? d >= base && d < base + 10000 : p.values == 1 ? !std::isfinite(d) : p.values == 5 || d == (p.values == 2 ? 0.0 : p.values == 3 ? -3.0 : p.values == 4 ? 1e300 : 1e-320), "%s: the solution is not that of this run", what.c_str());
    mc::count("solutions");
  } else {
    MC_CHECK(g.kind != 0, "%s: a solution although the solver reports: %s", what.c_str(), std::string{sleipnir::ToMessage(reported)}.c_str());
    MC_CHECK(g.kind == 1 && g.text == sleipnir::ToMessage(reported), "%s: the error says \"%s\", the solver \"%s\"", what.c_str(), g.text.c_str(),
             std::string{sleipnir::ToMessage(reported)}.c_str());
    mc::count("errors");
  }
}

/// What the path is like: the outcome is the solver's all the same.
constexpr int kPaths = 14;
template <class B>
void Prepare(B& b, int path = 0) {
  b.Do(ffi::Robot(0));
  if (path > 0) {
    if (path == 1) {  // one waypoint only
      b.Do({ffi::kPose, 0, 0, {0.5, 0.25, 0.125}, {}, {}});
      b.Do({ffi::kCounts, 0, 0, {}, {}, {}});
      return;
    }
    size_t last = path == 2 ? 3 : 1;
    for (size_t i = 0; i <= last; ++i) {
      double f = static_cast<double>(i);
      if (path == 3 || path == 4) b.Do({ffi::kPose, i, 0, {path == 4 ? 0.0 : 1 + f, 1.0, 0.5 * f}, {}, {}});
      else if (path == 5) b.Do({ffi::kTranslation, i, 0, {1 + f, 1.0, 0.5 * f}, {}, {}});
      else b.Do({ffi::kEmpty, i, 0, {2.5 * f, 1.25, 0.5}, {}, {}});
    }
    switch (path) {
      case 6: b.Do({ffi::kWptVelMax, 0, 0, {0}, {}, {}}); b.Do({ffi::kWptVelMax, 1, 0, {0}, {}, {}}); break;
      case 7: b.Do({ffi::kSgmtAngVel, 0, 1, {0.5}, {}, {}}); b.Do({ffi::kWptVelDir, 1, 0, {0.5}, {}, {}}); break;
      case 8: b.Do({ffi::kSgmtPointAt, 0, 1, {4, 4, 0.25}, {}, {}}); break;
      case 9: b.Do({ffi::kBumpers, 0, 0, {1, 0.75}, {}, {}}); b.Do({ffi::kCircle, 0, 1, {1.25, 1.25, 0.5}, {}, {}}); break;
      case 10: b.Do({ffi::kBumpers, 0, 0, {1, 0.75}, {}, {}}); b.Do({ffi::kPolygon, 0, 1, {0.25, 1, 2, 3}, {1, 2, 1}, {}}); break;
      case 11: b.Do({ffi::kSgmtAccel, 0, 1, {1e-3}, {}, {}}); b.Do({ffi::kSgmtVelMax, 0, 1, {1e-3}, {}, {}}); break;
      default: break;
    }
    if (path == 2) b.Do({ffi::kCounts, 0, 0, {}, {}, {1, 2, 1}});
    else if (path == 12) b.Do({ffi::kCounts, 0, 0, {}, {}, {120}});
    else if (path == 13) b.Do({ffi::kCounts, 0, 0, {}, {}, {1}});
    else b.Do({ffi::kCounts, 0, 0, {}, {}, {2}});
    return;
  }
  b.Do({ffi::kPose, 0, 0, {0.5, 0.25, 0.125}, {}, {}});
  b.Do({ffi::kEmpty, 1, 0, {2.5, 1.25, 0.5}, {}, {}});
  b.Do({ffi::kCounts, 0, 0, {}, {}, {2}});
}

enum Who { kGenerator, kBuilder, kForeign, kWhos };
/// Somebody who generates again and again.
struct Subject {
  Who who;
  ffi::Cpp cpp;
  std::optional<ffi::Native> native;
  std::optional<SwerveTrajectoryGenerator> g;
  int callbacks;
  Subject(Who w, int callbacks_, int path = 0) : who{w}, callbacks{callbacks_} {
    if (who == kForeign) {
      native.emplace();
      Prepare(*native, path);
      for (int k = 0; k < callbacks; ++k)
        native->b->add_progress_callback(rust::Fn<void(ffi::HolonomicTrajectory, int64_t)>::EnvMake(
            [](ffi::HolonomicTrajectory, int64_t, void*) { OnReport(); }, nullptr));
    } else {
      Prepare(cpp, path);
      for (int k = 0; k < callbacks; ++k) cpp.b.AddIntermediateCallback([](SwerveSolution&, int64_t) { OnReport(); });
      if (who == kGenerator) g.emplace(cpp.b, 5);
    }
  }
  static void OnReport() {
    if (g_iteration == g_callbackCancels) trajopt::GetCancellationFlag() = 1;
  }
  void Generate(Got& out, bool diagnostics) {
    if (who == kForeign) {
      trajopt::rsffi::HolonomicTrajectory t;
      // (the foreign interface raises the error; the solver's own exceptions look the same)
      try {
        t = native->b->generate(diagnostics, 3);
      } catch (const std::exception& x) {
        out.kind = 1;
        out.text = x.what();
        return;
      }
      out.kind = 0;
      for (auto& s : t.samples) out.x.push_back(s.x);
    } else {
      std::optional<SwerveTrajectoryGenerator> own;
      if (who == kBuilder) own.emplace(cpp.b, 9);
      auto r = (who == kBuilder ? *own : *g).Generate(diagnostics);
      if (r.has_value()) {
        out.kind = 0;
        out.x = r->x;
      } else {
        out.kind = 1;
        out.text = r.error();
      }
    }
  }
};
const char* kNames[] = {"one generator", "new generators of one builder", "the foreign-function interface"};

/// Every sequence of runs by the same generator, builder or foreign builder.
void Sequences() {
  auto who = static_cast<Who>(mc::choose(kWhos, "who"));
  int callbacks = mc::choose(2, "callbacks");
  Subject s{who, callbacks};
  int depth = mc::thorough() ? 4 : 3;
  std::string what = kNames[who];
  for (int k = 0; k < depth; ++k) {
    Plan p;
    int kind = mc::choose(10 + 4 + 1 + callbacks, "outcome");
    p.iterations = 2;
    if (kind < 10) {
      p.exit = kAll[kind];
      if (p.exit == Exit::kCallbackRequestedStop) p.iterations = 1;
    } else if (kind == 10) {
      p.cancelBefore = k % 2;
      p.exit = Exit::kTimeout;
    } else if (kind == 11) {
      p.cancelBefore = 2;  // too late
    } else if (kind == 12) {
      p.cancelEarly = true;
    } else if (kind == 13) {
      p.values = 1;
      p.exit = Exit::kSolvedToAcceptableTolerance;
    } else if (kind == 14) {
      p.throws = "no memory";
    } else {
      p.cancelBefore = 1;
      p.byCallback = true;
    }
    what += "; " + p.Show();
    MC_LOG("  %s", p.Show().c_str());
    if (who == kForeign && !p.throws.empty()) {
      // the exception is raised with its text
      Plan q = p;
      Run(
          q,
          [&](Got& g) {
            s.Generate(g, false);
            if (g.kind == 1) throw std::runtime_error{g.text};
          },
          false, what);
    } else {
      Run(p, [&](Got& g) { s.Generate(g, false); }, false, what);
    }
    mc::state(mc::Hash{}.add(what));
  }
}

/// One run, everything about it.
void Single() {
  auto who = static_cast<Who>(mc::choose(kWhos, "who"));
  int callbacks = mc::choose(3, "callbacks");
  Subject s{who, callbacks};
  Plan p;
  p.exit = mc::pick(kAll, "exit condition");
  p.iterations = mc::choose(mc::thorough() ? 6 : 4, "iterations");
  int cancel = mc::choose(p.iterations + 2, "cancelled before");
  if (cancel <= p.iterations) p.cancelBefore = cancel;
  if (callbacks > 0 && p.cancelBefore >= 0 && p.cancelBefore < p.iterations) {
    p.byCallback = mc::choose(2, "by a callback") == 1;
  }
  p.cancelEarly = mc::choose(2, "a request before the start") == 1;
  p.values = mc::choose(7, "final values");
  bool diagnostics = mc::choose(2, "diagnostics") == 1;
  if (mc::choose(2, "move the generator") == 1) {
    if (who != kGenerator) throw mc::Prune{};
    auto moved = std::move(*s.g);
    s.g.emplace(std::move(moved));
  }
  auto what = mc::fmt("%s: %s", kNames[who], p.Show().c_str());
  MC_LOG("  %s", what.c_str());
  // (the first iteration of a generation that has never reported may be too early for a report)
  Run(p, [&](Got& g) { s.Generate(g, diagnostics); }, diagnostics, what);
  mc::state(mc::Hash{}.add(what).add(static_cast<uint64_t>(callbacks)));
}

/// Whatever the path, the values the solver ends at, and how long it took.
void Paths() {
  auto who = static_cast<Who>(mc::choose(kWhos, "who"));
  int path = mc::choose(kPaths, "path");
  int callbacks = mc::choose(2, "callbacks");
  Subject s{who, callbacks, path};
  Plan p;
  p.exit = mc::pick(kAll, "exit condition");
  p.values = mc::choose(7, "final values");
  static const int iterations[] = {0, 1, 40, 6000};
  p.iterations = iterations[mc::choose(p.values > 0 && !mc::thorough() ? 2 : path == 12 ? 3 : 4, "iterations")];
  bool diagnostics = mc::flip("diagnostics");
  if (p.iterations > 1 && mc::flip("cancelled before the last iteration")) p.cancelBefore = p.iterations - 1;
  auto what = mc::fmt("%s, path %d: %s", kNames[who], path, p.Show().c_str());
  MC_LOG("  %s", what.c_str());
  Run(p, [&](Got& g) { s.Generate(g, diagnostics); }, diagnostics, what);
  mc::state(mc::Hash{}.add(what).add(static_cast<uint64_t>(callbacks)));
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"single runs", Single, 4}, {"sequences", Sequences, 3}, {"paths", Paths, 4}});
}
