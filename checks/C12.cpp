// C12: progress callbacks report the current iterate, to everyone, at most 60 Hz.
// The clock is the environment's: every iteration happens at a chosen time.
#include "checks/common.hpp"
#include "mc/isolate.hpp"

#include <sstream>

namespace {
int64_t g_now = 1'000'000'000'000;  // ns
}
namespace {
int64_t g_wall = 0;  // what the wall clock has been set forward by
}
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  int64_t now = g_now + (id == CLOCK_REALTIME || id == CLOCK_TAI ? 1'700'000'000'000'000'000 + g_wall : 0);
  t->tv_sec = now / 1'000'000'000;
  t->tv_nsec = now % 1'000'000'000;
  return 0;
}

namespace {

using namespace tp;

constexpr double kFrame = 1.0 / 60;

std::vector<double> Flat(const trajopt::SwerveSolution& s) {
  std::vector<double> r;
  for (auto* f : {&s.dt, &s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha})
    r.insert(r.end(), f->begin(), f->end());
  for (auto* f : {&s.moduleFX, &s.moduleFY})
    for (auto& row : *f) r.insert(r.end(), row.begin(), row.end());
  return r;
}

struct Call {
  int who;  // number of the callback
  int64_t handle;
  std::vector<double> values;
};
std::vector<Call> g_calls;

struct Object {
  std::optional<SwerveTrajectoryGenerator> g;
  int64_t handle = 0;
  int firstCallback = 0, callbacks = 0;
  std::string* pattern = nullptr;  // which iterations report
};

/// What a solver's iterates look like: distinct, unchanging, zeros, not numbers,
/// enormous, tiny, all as at the start.
int g_iterates = 0;
double Iterate(int kind, double base, double i) {
  switch (kind) {
    case 1: return 5000 + i;
    case 2: return 0.0;
    case 3: return NAN;
    case 4: return i < 9 ? -HUGE_VAL : 1e300;
    case 5: return 1e-320;
    default: return base + i;
  }
}

struct Report {
  double base;  // decision variable i had the value base + i, or
  int kind;     // that of this kind
  std::vector<double> values;
};

double g_base = 0;
int g_depth = 0;
sleipnir::env::SolveHook* g_solver = nullptr;  // of the innermost generation

// in nanoseconds, with both sides of the frame time to the nanosecond
bool g_coarse = false;
std::function<int64_t()> g_step;
int64_t ChooseStep() {
  if (g_step) return g_step();
  if (g_coarse) return mc::flip("a frame passes") ? 16'666'667 : 1'000'000;
  static const int64_t quick[] = {1'000'000, 16'666'666, 16'666'667, 100'000'000};
  static const int64_t all[] = {0, 1'000'000, 8'333'334, 16'666'666, 16'666'667, 100'000'000, 1'016'666'666};
  return mc::thorough() ? mc::pick(all, "time passes") : mc::pick(quick, "time passes");
}

/// What the first callback of the outermost generation does besides.
std::function<void(int)> g_within;

/// One generation of `iterations` iterations; `between` runs before iteration k.
void Generation(Object& o, int iterations, const std::function<void(int)>& between) {
  std::vector<Report> reports;
  int64_t lastReport = -1, firstIteration = -1;
  auto* outer = g_solver;
  double finalBase = 0;
  sleipnir::env::SolveHook solver = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& config) {
    MC_CHECK(config.diagnostics == alwaysDiagnostics, "harness: diagnostics");
    auto& v = p.EnvDecisionVariables();
    MC_CHECK(p.EnvHasCallback(), "the generator gave the solver no iteration callback");
    for (int k = 0; k < iterations; ++k) {
      g_now += ChooseStep();
      if (between) between(k);
      double base = g_base += 10000;
      for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(Iterate(g_iterates, base, static_cast<double>(i)));
      g_calls.clear();
      int64_t start = g_now;
      bool stop = p.EnvIterate(k);
      mc::op();
      MC_CHECK(!stop, "a generation nobody cancelled is stopped");
      if (firstIteration < 0) firstIteration = start;
      int64_t since = start - (lastReport >= 0 ? lastReport : firstIteration);
      bool due = static_cast<double>(since) * 1e-9 >= kFrame;
      // (callbacks may themselves take time: what counts is when the report was due)
      bool early = lastReport >= 0 && static_cast<double>(since) * 1e-9 < kFrame;
      MC_LOG("  %*sgeneration %lld, iteration %d at %.9f s: %zu callbacks called", g_depth * 2, "", (long long)o.handle, k,
             static_cast<double>(g_now) * 1e-9, g_calls.size());
      if (o.pattern != nullptr) *o.pattern += g_calls.empty() ? '-' : 'R';
      if (o.callbacks == 0) {
        MC_CHECK(g_calls.empty(), "a callback that is not this generation's is called");
        continue;
      }
      if (g_calls.empty()) {
        MC_CHECK(!due, "no report although %.9f s have passed since %s", static_cast<double>(since) * 1e-9,
                 lastReport >= 0 ? "the last one" : "the generation's first iteration");
        mc::count("iterations_without_report");
        continue;
      }
      mc::count("reports");
      MC_CHECK(!early, "a report only %.9f s after the previous one", static_cast<double>(since) * 1e-9);
      MC_CHECK(g_calls.size() == static_cast<size_t>(o.callbacks), "%zu callbacks are called, %d are registered", g_calls.size(),
               o.callbacks);
      for (size_t c = 0; c < g_calls.size(); ++c) {
        MC_CHECK(g_calls[c].who == o.firstCallback + static_cast<int>(c), "callback %d is called in place of callback %d",
                 g_calls[c].who, o.firstCallback + static_cast<int>(c));
        MC_CHECK(g_calls[c].handle == o.handle, "a callback gets handle %lld, the generation's is %lld",
                 (long long)g_calls[c].handle, (long long)o.handle);
        reports.push_back({base, g_iterates, g_calls[c].values});
      }
      lastReport = start;
    }
    finalBase = g_base += 10000;
    for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(finalBase + static_cast<double>(i));
    return sleipnir::SolverStatus{};
  };
  g_solver = &solver;
  g_calls.clear();
  ++g_depth;
  std::optional<trajopt::SwerveSolution> sol;
  auto err = GenerateText(*o.g, &sol);
  --g_depth;
  g_solver = outer;
  MC_CHECK(sol.has_value(), "generation failed although the solver succeeded: %s", err.c_str());
  auto last = Flat(*sol);
  for (auto& r : reports) {
    MC_CHECK(r.values.size() == last.size(), "a report has %zu numbers, the solution %zu", r.values.size(), last.size());
    for (size_t i = 0; i < last.size(); ++i) {
      double want = Iterate(r.kind, r.base, last[i] - finalBase);
      MC_CHECK(r.values[i] == want || (std::isnan(want) && std::isnan(r.values[i])), "number %zu of a report is %g: the current iterate has %g there", i, r.values[i], want);
    }
  }
  mc::state(mc::Hash{}.add(static_cast<uint64_t>(g_now)).add(static_cast<uint64_t>(lastReport)).add(static_cast<uint64_t>(reports.size())));
}

void AddCallbacks(SwervePathBuilder& b, int first, int n) {
  for (int i = 0; i < n; ++i)
    b.AddIntermediateCallback(
        [who = first + i](trajopt::SwerveSolution& s, int64_t handle) {
          g_calls.push_back({who, handle, Flat(s)});
          if (g_within && g_depth == 1) {
            auto calls = std::move(g_calls);
            auto before = Flat(s);
            g_within(who);
            g_calls = std::move(calls);
            auto after = Flat(s);
            MC_CHECK(after.size() == before.size() && memcmp(after.data(), before.data(), after.size() * sizeof(double)) == 0, "the iterate a callback was given changes while it looks at it");
          }
        });
}
SwervePathBuilder Path(int kind) {
  SwervePathBuilder b;
  b.SetDrivetrain(Drive(kind == 0 ? 3 : 1));
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  if (kind == 1) b.PoseWpt(2, 1, 3, 1);
  b.ControlIntervalCounts(kind == 0 ? std::vector<size_t>{1} : std::vector<size_t>{2, 3});
  return b;
}
void Make(Object& o, SwervePathBuilder& b, int first, int n, int64_t handle) {
  o.handle = handle;
  o.firstCallback = first;
  o.callbacks = n;
  o.g.emplace(b, handle);
}

// One generator, generated once or twice; every timing.
void Timing() {
  g_coarse = false;
  int kind = mc::choose(2, "path");
  int n = mc::choose(4, "callbacks");
  int runs = 1 + mc::choose(2, "generations, less one");
  static const int64_t handles[] = {0, 5, -1, 0x123456789abcdefll};
  int64_t handle = handles[n];
  int64_t wait = mc::flip("time passes between construction and generation") ? 30'000'000 : 0;
  int iterations = runs == 1 ? (mc::thorough() ? 6 : 5) : (mc::thorough() ? 4 : 3);
  mc::Isolated([&] {
    auto b = Path(kind);
    AddCallbacks(b, 0, n);
    Object o;
    Make(o, b, 0, n, handle);
    g_now += wait;
    for (int r = 0; r < runs; ++r) {
      MC_LOG("generation %d", r);
      Generation(o, iterations, {});
      g_now += 2'000'000;
    }
  });
}

// Every handle, with any number of callbacks, or none given at all.
void Handles() {
  static const int64_t handles[] = {0, 1, -1, 2, 59, 60, 255, 256, -128, 65536, 2147483647, 2147483648ll, -2147483648ll, -2147483649ll,
                                    4294967295ll, 4294967296ll, INT64_MAX, INT64_MIN, INT64_MIN + 1};
  static const int counts[] = {0, 1, 2, 3, 10, 40};
  int which = mc::choose(20, "handle (19: none given)");
  int n = mc::pick(counts, "callbacks");
  int kind = mc::choose(2, "path");
  int otherHandle = mc::choose(3, "the other generator's: none / the same / another");
  g_coarse = true;
  mc::Isolated([&] {
    auto a = Path(kind);
    AddCallbacks(a, 0, n);
    Object o, other;
    if (which < 19) Make(o, a, 0, n, handles[which]);
    else {
      o.handle = 0;
      o.callbacks = n;
      o.g.emplace(a);
    }
    if (otherHandle > 0) Make(other, a, 0, n, otherHandle == 1 ? o.handle : 77);
    Generation(o, 2, {});
    if (otherHandle > 0) {
      Generation(other, 1, {});
      Generation(o, 1, {});
    }
  });
}

// Two generators: one generation within, before or after the other; callbacks
// registered between the constructions belong to the later one only.
void TwoGenerators() {
  int order = mc::choose(4, "B: within A before iteration 0, 1, 2, or A, B, A in turn");
  int relation = mc::choose(3, "B: of its own builder, of A's builder with more callbacks, copied from A");
  int iters = 3;
  g_coarse = false;
  mc::Isolated([&] {
    auto a = Path(0);
    AddCallbacks(a, 0, 2);
    Object oa, ob;
    Make(oa, a, 0, 2, 11);
    if (relation == 0) {
      auto b = Path(1);
      AddCallbacks(b, 10, 1);
      Make(ob, b, 10, 1, 12);
    } else if (relation == 1) {
      AddCallbacks(a, 2, 1);
      Make(ob, a, 0, 3, 13);
    } else {
      if (order < 3) throw mc::Prune{};  // copies share the solver's variables: used in turn only
      ob = oa;
    }
    if (order < 3) {
      Generation(oa, iters, [&](int k) {
        if (k != order) return;
        Generation(ob, 2, {});
      });
    } else {
      Generation(oa, 2, {});
      Generation(ob, 2, {});
      Generation(oa, 1, {});
    }
  });
}

// Whatever another generation does at the same time or before, with the same
// handle or another: the iterations that report are those that report when the
// generation has a process of its own, at the same times.
void Unaffected() {
  int order = mc::choose(4, "B: within A before iteration 0, 1, 2, or A, B, A in turn");
  int64_t handleB = mc::pick({int64_t{11}, int64_t{12}, int64_t{0}}, "handle of B");
  bool sameBuilder = mc::flip("B is made from A's builder");
  int callbacksB = mc::choose(3, "callbacks of B");
  if (sameBuilder && callbacksB != 1) throw mc::Prune{};
  // (A: three iterations at first in turn: two, then one; B: two)
  std::vector<int> who;
  if (order < 3) {
    for (int k = 0; k < 3; ++k) {
      // (time passes before what happens between the iterations)
      who.push_back(0);
      if (k == order) who.insert(who.end(), {1, 1});
    }
  } else {
    who = {0, 0, 1, 1, 0};
  }
  std::vector<int64_t> at[2];  // when each iteration of A and of B happens
  std::vector<int64_t> steps;
  int64_t now = g_now;
  static const int64_t quick[] = {1'000'000, 9'000'000, 16'666'667};
  for (size_t i = 0; i < who.size(); ++i) {
    steps.push_back(mc::pick(quick, "time passes"));
    now += steps.back();
  }
  static char* shared = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto note = [](int slot, const std::string& s) { snprintf(shared + 1024 * slot, 1024, "%s", s.c_str()); };
  auto make = [&](Object& o, bool second) {
    auto p = Path(second && !sameBuilder);
    int n = second ? callbacksB : 1;
    AddCallbacks(p, second ? 10 : 0, n);
    Make(o, p, second ? 10 : 0, n, second ? handleB : 11);
  };
  // both together; and when each of their iterations took place
  mc::Isolated([&] {
    Object o[2];
    std::string pattern[2], times[2];
    for (int k = 0; k < 2; ++k) {
      o[k].pattern = &pattern[k];
      if (k == 1 && sameBuilder) {
        auto p = Path(0);
        AddCallbacks(p, 0, 1);
        Make(o[0], p, 0, 1, 11);
        Make(o[1], p, 0, 1, handleB);
      } else if (!sameBuilder) {
        make(o[k], k == 1);
      }
    }
    size_t next = 0;
    g_step = [&] { return steps[next++]; };
    auto run = [&](int k, int iterations, const std::function<void(int)>& between) {
      Generation(o[k], iterations, [&, k](int i) {
        if (between) between(i);
        times[k] += mc::fmt("%lld ", (long long)g_now);
      });
    };
    if (order < 3) {
      run(0, 3, [&](int i) {
        if (i == order) run(1, 2, {});
      });
    } else {
      run(0, 2, {});
      run(1, 2, {});
      run(0, 1, {});
    }
    g_step = nullptr;
    note(0, pattern[0]), note(1, pattern[1]);
    note(2, times[0]), note(3, times[1]);
  });
  for (int k = 0; k < 2; ++k) {
    at[k].clear();
    std::istringstream in{std::string{shared + 1024 * (2 + k)}};
    for (int64_t t; in >> t;) at[k].push_back(t);
  }
  // each of them alone
  for (int k = 0; k < 2; ++k) {
    mc::Isolated([&] {
      Object o;
      make(o, k == 1 && !sameBuilder);
      if (k == 1 && sameBuilder) {
        auto p = Path(0);
        AddCallbacks(p, 0, 1);
        Make(o, p, 0, 1, handleB);
      }
      std::string pattern;
      o.pattern = &pattern;
      size_t next = 0;
      g_step = [&] { return at[k][next++] - g_now; };
      if (k == 0 && order == 3) {
        Generation(o, 2, {});
        Generation(o, 1, {});
      } else {
        Generation(o, static_cast<int>(at[k].size()), {});
      }
      g_step = nullptr;
      MC_CHECK(pattern == shared + 1024 * k, "generation %c reports at iterations %s when another one runs too, at %s when alone", 'A' + k, shared + 1024 * k, pattern.c_str());
      mc::count("patterns_compared");
    });
  }
}

// A generation run by a callback of another one: before, between or after the
// callbacks that report the outer one's progress.
void FromCallback() {
  int callbacks = 1 + mc::choose(3, "callbacks of the outer generation, less one");
  int by = mc::choose(callbacks, "run by callback");
  int inner = mc::choose(3, "callbacks of the inner generation");
  int relation = mc::choose(2, "inner: of its own builder, of the outer's builder with more callbacks");
  int kind = mc::choose(2, "path");
  g_coarse = !mc::thorough();
  mc::Isolated([&] {
    auto a = Path(kind);
    AddCallbacks(a, 0, callbacks);
    Object oa, ob;
    Make(oa, a, 0, callbacks, 11);
    auto b = Path(1 - kind);
    if (relation == 0) {
      AddCallbacks(b, 10, inner);
      Make(ob, b, 10, inner, 12);
    } else {
      AddCallbacks(a, callbacks, inner);
      Make(ob, a, 0, callbacks + inner, 13);
    }
    g_within = [&](int who) {
      if (who == by) Generation(ob, 2, {});
    };
    Generation(oa, 2, {});
    g_within = nullptr;
    Generation(oa, 1, {});
  });
}

// Callbacks that take time, any of them.
void Slow() {
  int callbacks = 1 + mc::choose(3, "callbacks, less one");
  int slow = mc::choose(callbacks + 1, "slow one (last: all)");
  static const int64_t times[] = {1'000'000, 10'000'000, 16'666'666, 16'666'667, 40'000'000, 2'000'000'000};
  int64_t time = mc::pick(times, "it takes");
  int kind = mc::choose(2, "path");
  int runs = 1 + mc::choose(2, "generations, less one");
  g_coarse = runs == 2;
  mc::Isolated([&] {
    auto a = Path(kind);
    AddCallbacks(a, 0, callbacks);
    Object o;
    Make(o, a, 0, callbacks, 11);
    g_within = [&](int who) {
      if (who == slow || slow == callbacks) g_now += time;
    };
    for (int r = 0; r < runs; ++r) Generation(o, runs == 1 ? mc::thorough() ? 5 : 4 : 3, {});
    g_within = nullptr;
  });
}

// Someone sets the wall clock: time passes all the same.
void WallClock() {
  static const int64_t jumps[] = {0, -3'600'000'000'000, 3'600'000'000'000, -20'000'000, 20'000'000};
  int n = 1 + mc::choose(2, "callbacks, less one");
  int iterations = mc::thorough() ? 5 : 4;
  g_coarse = false;
  mc::Isolated([&] {
    auto b = Path(0);
    AddCallbacks(b, 0, n);
    Object o;
    Make(o, b, 0, n, 3);
    g_step = [&] {
      g_wall += mc::pick(jumps, "the wall clock is set");
      return mc::flip("a frame passes") ? 16'666'667 : 1'000'000;
    };
    Generation(o, iterations, {});
    g_step = nullptr;
  });
}

// Generations of many iterations: every pattern of three steps, repeated.
void Long() {
  static const int64_t steps[] = {1'000'000, 8'400'000, 16'666'667, 30'000'000, 5'000'000'000};
  int64_t pattern[3];
  for (auto& t : pattern) t = mc::pick(steps, "time passes");
  int kind = mc::choose(2, "path");
  int iterations = mc::thorough() ? 3000 : 600;
  mc::Isolated([&] {
    auto b = Path(kind);
    AddCallbacks(b, 0, 1);
    Object o;
    Make(o, b, 0, 1, 3);
    int k = 0;
    g_step = [&] { return pattern[k++ % 3]; };
    Generation(o, iterations, {});
    g_step = nullptr;
  });
}

// With diagnostics, or on a path with constraints, obstacles, guesses, another
// start; whatever the iterates look like.
void Circumstances() {
  struct Guard {
    ~Guard() {
      alwaysDiagnostics = false;
      g_iterates = 0;
      g_coarse = false;
    }
  } guard;
  alwaysDiagnostics = mc::choose(2, "with diagnostics") == 1;
  g_iterates = mc::choose(6, "iterates");
  int path = mc::choose(8, "path: usual / constraints / obstacles / guesses / stops / single waypoint / many waypoints / callbacks before everything else");
  int runs = 1 + mc::choose(2, "generations, less one");
  g_coarse = true;
  mc::Isolated([&] {
    SwervePathBuilder b;
    if (path == 7) AddCallbacks(b, 0, 2);
    b.SetDrivetrain(Drive(1));
    std::vector<size_t> counts{2, 1};
    b.PoseWpt(0, 0, 0, 0);
    if (path == 5) {
      counts = {};
    } else {
      b.TranslationWpt(1, 1, 0, 0);
      b.PoseWpt(2, 2, 1, 3);
    }
    if (path == 1) {
      b.SgmtConstraint(0, 2, trajopt::LinearVelocityMaxMagnitudeConstraint{2.0});
      b.WptConstraint(1, trajopt::PointAtConstraint{{4, 4}, 0.5});
    }
    if (path == 2) {
      b.AddBumpers({0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
      b.SgmtObstacle(0, 2, {0.5, {{5, 6}, {7, 6}}});
    }
    if (path == 3) b.SgmtInitialGuessPoints(0, {{0.5, 0.5, {1.0}}});
    if (path == 4)
      for (size_t w : {0, 2}) {
        b.WptConstraint(w, trajopt::LinearVelocityMaxMagnitudeConstraint{0.0});
        b.WptConstraint(w, trajopt::AngularVelocityMaxMagnitudeConstraint{0.0});
      }
    if (path == 6)
      for (size_t w = 3; w < 20; ++w) {
        b.PoseWpt(w, static_cast<double>(w), 0, 0);
        counts.push_back(1 + w % 3);
      }
    b.ControlIntervalCounts(std::move(counts));
    if (path != 7) AddCallbacks(b, 0, 2);
    Object o;
    Make(o, b, 0, 2, 6);
    for (int r = 0; r < runs; ++r) Generation(o, mc::thorough() ? 4 : 3, {});
  });
}

}  // namespace

int main(int argc, char** argv) {
  sleipnir::env::Hook() = [](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& c) {
    auto solver = g_solver;
    return (*solver)(p, c);
  };
  return mc::Main(argc, argv, {{"timing", Timing, 4}, {"handles", Handles, 3}, {"two-generators", TwoGenerators, 3}, {"unaffected", Unaffected, 4}, {"from-callback", FromCallback, 3}, {"slow-callbacks", Slow, 3}, {"wall-clock", WallClock, 3}, {"long", Long, 2}, {"circumstances", Circumstances, 4}});
}
