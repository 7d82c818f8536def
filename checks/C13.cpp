// C13: cancelling stops every generation in progress and only those.
#include "checks/C13_ops.hpp"
#include "checks/common.hpp"
#include "mc/isolate.hpp"
#include "mc/sched.hpp"

namespace {

using namespace tp;

// One generation, as observed.
struct Gen {
  int thread = 0;
  int object = 0;
  int64_t call = 0, enter = -1, leave = -1, ret = -1;
  struct Iter {
    int64_t begin, end;
    bool stop;
  };
  std::vector<Iter> iters;
  std::optional<std::string> error;
  bool returned = false;
};
struct Req {
  int64_t call, ret;
};

struct Log {
  std::vector<Gen> gens;
  std::vector<Req> reqs;
  int cur[6] = {-1, -1, -1, -1, -1, -1};  // generation running on a thread
};
Log* L;

void RequestCancel(int value = 0) {
  size_t i = L->reqs.size();
  if (value == 0) value = i % 2 == 0 ? 1 : c13::kForeign;
  L->reqs.push_back({sched::Tick(), INT64_MAX});
  MC_LOG("  thread %d: cancel", sched::Me());
  c13::Cancel(value);
  L->reqs[i].ret = sched::Tick();
}

// Something that generates: directly, or through the foreign-function interface.
struct Object {
  std::optional<SwerveTrajectoryGenerator> direct;
  std::shared_ptr<void> foreign;
  int64_t handle = 0;
  std::optional<std::string> Run() { return direct ? c13::Generate(*direct) : c13::GenerateForeign(foreign.get(), handle); }
};

int g_iterations = 2;
int g_callbackCancels = 0;  // the iteration in which thread 1's progress callback cancels; 0: none

void RunGeneration(Object& g, int object) {
  size_t i = L->gens.size();
  L->gens.emplace_back();
  L->gens[i].thread = sched::Me();
  L->gens[i].object = object;
  L->gens[i].call = sched::Tick();
  int outer = L->cur[sched::Me()];
  L->cur[sched::Me()] = static_cast<int>(i);
  MC_LOG("  thread %d: generate %c", sched::Me(), 'A' + object);
  auto err = g.Run();
  L->cur[sched::Me()] = outer;
  L->gens[i].ret = sched::Tick();
  L->gens[i].error = err;
  L->gens[i].returned = true;
  MC_LOG("  thread %d: generation of %c returned: %s", sched::Me(), 'A' + object, err ? err->c_str() : "a trajectory");
}

sleipnir::SolverStatus Solver(sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
  int gi = L->cur[sched::Me()];
  L->gens[static_cast<size_t>(gi)].enter = sched::Tick();
  sleipnir::SolverStatus st;
  MC_CHECK(p.EnvHasCallback(), "the generator gave the solver no iteration callback: it cannot be cancelled");
  for (int k = 0; k < g_iterations; ++k) {
    sched::Point("a solver iteration");
    int64_t b = sched::Tick();
    bool stop = p.EnvIterate(k);
    int64_t e = sched::Tick();
    MC_LOG("  thread %d: iteration %d: %s", sched::Me(), k, stop ? "stop" : "go on");
    L->gens[static_cast<size_t>(gi)].iters.push_back({b, e, stop});
    mc::op();
    if (stop) {
      st.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
      break;
    }
  }
  L->gens[static_cast<size_t>(gi)].leave = sched::Tick();
  return st;
}

void Judge() {
  for (auto& g : L->gens) {
    MC_CHECK(g.enter >= 0, "a generation ended without invoking the solver");
    bool stopped = !g.iters.empty() && g.iters.back().stop;
    for (auto& it : g.iters) {
      for (auto& r : L->reqs)
        MC_CHECK(it.stop || !(g.enter < r.call && r.ret < it.begin),
                 "generation %c on thread %d continues although cancellation was requested (event %lld) while it was "
                 "solving (since event %lld), before this iteration (event %lld)",
                 'A' + g.object, g.thread, (long long)r.call, (long long)g.enter, (long long)it.begin);
      if (it.stop) {
        bool why = false;
        for (auto& r : L->reqs) why = why || (r.ret > g.call && r.call < it.end);
        MC_CHECK(why, "generation %c on thread %d is stopped although nobody requested cancellation since it was started",
                 'A' + g.object, g.thread);
      }
    }
    if (stopped) {
      mc::count("generations_cancelled");
      MC_CHECK(g.error.has_value(), "a cancelled generation returned a trajectory");
      MC_CHECK(*g.error == sleipnir::ToMessage(sleipnir::SolverExitCondition::kCallbackRequestedStop),
               "a cancelled generation reports: %s", g.error->c_str());
    } else {
      mc::count("generations_completed");
      MC_CHECK(!g.error.has_value(), "a generation that was not stopped reports: %s", g.error->c_str());
    }
  }
  mc::count("cancel_requests", static_cast<int64_t>(L->reqs.size()));
  mc::Hash h;
  for (auto& g : L->gens) {
    h.add(static_cast<uint64_t>(g.thread)).add(static_cast<uint64_t>(g.call)).add(static_cast<uint64_t>(g.enter));
    for (auto& it : g.iters) h.add(static_cast<uint64_t>(it.begin)).add(static_cast<uint64_t>(it.stop));
  }
  for (auto& r : L->reqs) h.add(static_cast<uint64_t>(r.call));
  mc::state(h);
}

Object Foreign(int64_t handle) { return {std::nullopt, c13::MakeForeign(), handle}; }
Object Make(int64_t handle, int path = 0) {
  SwervePathBuilder b;
  b.SetDrivetrain(Drive(3));
  b.PoseWpt(0, 0, 0, 0);
  std::vector<size_t> counts;
  size_t last = path == 1 ? 0 : path == 5 ? 20 : path == 3 ? 2 : 1;
  for (size_t i = 1; i <= last; ++i) {
    b.PoseWpt(i, static_cast<double>(i), 0, 0);
    counts.push_back(path == 7 ? 300 : path == 5 ? 1 + i % 3 : 1);
  }
  if (path == 3) {
    b.SgmtConstraint(0, 2, trajopt::LinearVelocityMaxMagnitudeConstraint{2.0});
    b.WptConstraint(1, trajopt::PointAtConstraint{{4, 4}, 0.5});
  }
  if (path == 4) {
    b.AddBumpers({0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
    b.SgmtObstacle(0, 1, {0.5, {{5, 6}, {7, 6}}});
  }
  if (path == 6) b.WptConstraint(1, trajopt::LinearVelocityMaxMagnitudeConstraint{0.0});
  b.ControlIntervalCounts(std::move(counts));
  if (path != 2) b.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) {});
  return {SwerveTrajectoryGenerator{b, handle}, nullptr, handle};
}

// Programs: letters are executed in order. g/h: generate the thread's own first
// or second object, f: through the foreign-function interface, c: cancel.
void Execute(const char* prog, Object* own, int firstObject) {
  for (const char* p = prog; *p != 0; ++p) {
    sched::Point("the next operation of a thread");
    if (*p == 'c') RequestCancel();
    else {
      int k = *p == 'f' ? 2 : *p - 'g';
      RunGeneration(own[k], firstObject + k);
    }
  }
}

void RunPrograms(const std::vector<const char*>& progs, int preemptions) {
  Log log;
  L = &log;
  // constructed beforehand: generators are independent objects
  std::vector<Object> objs;
  objs.reserve(3 * progs.size());
  for (size_t t = 0; t < 3 * progs.size(); ++t) {
    bool used = strchr(progs[t / 3], "ghf"[t % 3]) != nullptr;
    auto handle = static_cast<int64_t>(t);
    objs.push_back(!used ? Object{} : t % 3 == 2 ? Foreign(handle) : Make(handle));
  }
  sleipnir::env::Hook() = Solver;
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < progs.size(); ++t)
    bodies.push_back([&, t] { Execute(progs[t], &objs[3 * t], static_cast<int>(3 * t)); });
  sched::Run(bodies, preemptions);
  Judge();
}

void Two() {
  static const char* const p1[] = {"g", "gg", "gh", "cg", "gcg", "gch", "cgc", "f", "ff"};
  static const char* const p2[] = {"c", "g", "gc", "cg", "cc", "gg", "cgc", "fc"};
  auto a = mc::pick(p1, "program of thread 1");
  auto b = mc::pick(p2, "program of thread 2");
  g_iterations = 2;
  mc::Isolated([&] {
    MC_LOG("threads run: %s | %s", a, b);
    RunPrograms({a, b}, mc::thorough() ? 4 : 2);
  });
}

void Three() {
  static const char* const progs[][3] = {{"g", "g", "c"},   {"g", "cg", "c"},  {"g", "gc", "g"}, {"gg", "g", "c"},
                                         {"g", "gg", "c"},  {"g", "c", "c"},   {"cg", "cg", "g"}, {"gh", "gc", "c"},
                                         {"f", "f", "c"},   {"f", "g", "c"}};
  auto& p = mc::pick(progs, "programs");
  g_iterations = 2;
  mc::Isolated([&] {
    MC_LOG("threads run: %s | %s | %s", p[0], p[1], p[2]);
    RunPrograms({p[0], p[1], p[2]}, mc::thorough() ? 3 : 2);
  });
}

// Every history of generations and requests on one thread, a request falling
// between any two iterations.
void Sequential() {
  int ops = mc::thorough() ? 4 : 3;
  g_iterations = 3;
  mc::Isolated([&] {
    Log log;
    L = &log;
    static const int values[] = {1, c13::kForeign, 2, 256, -1};
    int value = mc::pick(values, "value that requests cancellation");
    bool twice = value != 1;
    if (value == c13::kForeign && mc::choose(2, "over and over") == 1) ops = 2;
    if (!twice) ops = mc::thorough() ? 6 : 4;  // (deeper histories of single requests)
    MC_CHECK(c13::Flag() == 0, "cancellation counts as requested before anyone requested it");
    std::vector<Object> objs;
    objs.reserve(3);
    objs.push_back(Make(1));
    objs.push_back(Make(2));
    objs.push_back(Foreign(3));
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      int gi = L->cur[0];
      L->gens[static_cast<size_t>(gi)].enter = sched::Tick();
      sleipnir::SolverStatus st;
      MC_CHECK(p.EnvHasCallback(), "the generator gave the solver no iteration callback: it cannot be cancelled");
      int at = mc::choose(g_iterations + 1, "cancel before iteration (3: never)");
      static const int counts[] = {1, 2, 256, 65536};
      int times = twice && at < g_iterations ? counts[mc::choose(value != c13::kForeign ? 2 : ops > 2 ? 3 : 4, "how often")] : 1;
      for (int k = 0; k < g_iterations; ++k) {
        for (int n = 0; k == at && n < times; ++n) RequestCancel(value);
        int64_t b = sched::Tick();
        bool stop = p.EnvIterate(k);
        L->gens[static_cast<size_t>(gi)].iters.push_back({b, sched::Tick(), stop});
        mc::op();
        if (stop) {
          st.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
          break;
        }
      }
      return st;
    };
    for (int k = 0; k < ops; ++k) {
      int o = mc::choose(twice ? 4 : 5, "end / cancel / generate A / generate B / generate C through the foreign-function interface");
      if (o == 0) break;
      if (o == 1) RequestCancel(value);
      else RunGeneration(objs[static_cast<size_t>(o - 2)], o - 2);
    }
    MC_CHECK(c13::FlagAddress() == c13::FlagAddress(), "the cancellation flag is not one object");
    Judge();
  });
}

// One generation after another, with diagnostics or without, of few iterations
// or very many, cancelled early, late or never; whatever iterates look like.
void Circumstances() {
  struct Guard {
    ~Guard() {
      c13::diagnostics = false;
      g_iterations = 2;
    }
  } guard;
  bool foreign = mc::choose(2, "direct / through the foreign-function interface") == 1;
  c13::diagnostics = mc::choose(2, "with diagnostics") == 1;
  static const int lengths[] = {1, 3, 70, 300, 5100, 70000};
  g_iterations = mc::pick(lengths, "iterations");
  int path = foreign || g_iterations > 300 ? 0 : mc::choose(8, "path: usual / single waypoint / no callbacks / constraints / obstacles / many waypoints / stop / long");
  int64_t handle = path == 0 ? 1 : mc::pick({int64_t{0}, int64_t{1}, int64_t{-1}, INT64_MAX}, "handle");
  int numbering = mc::choose(path > 0 ? 1 : 3, "iterations numbered from 0 / from 0 again every seven / all 0");
  int values = mc::choose(4, "iterates: as started / all the same / zero / not finite");
  mc::Isolated([&] {
    Log log;
    L = &log;
    Object o = foreign ? Foreign(3) : Make(handle, path);
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      int gi = L->cur[0];
      L->gens[static_cast<size_t>(gi)].enter = sched::Tick();
      sleipnir::SolverStatus st;
      MC_CHECK(p.EnvHasCallback(), "the generator gave the solver no iteration callback: it cannot be cancelled");
      const int when[] = {0, 1, g_iterations / 2, g_iterations - 1, g_iterations};
      int at = mc::pick(when, "cancel before iteration (the number of iterations: never)");
      for (auto& v : p.EnvDecisionVariables())
        if (values > 0) v.SetValue(values == 1 ? 0.5 : values == 2 ? 0.0 : NAN);
      for (int k = 0; k < g_iterations; ++k) {
        if (k == at) RequestCancel();
        int64_t b = sched::Tick();
        bool stop = p.EnvIterate(numbering == 0 ? k : numbering == 1 ? k % 7 : 0);
        L->gens[static_cast<size_t>(gi)].iters.push_back({b, sched::Tick(), stop});
        mc::op();
        if (stop) {
          st.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
          break;
        }
      }
      return st;
    };
    RunGeneration(o, 0);
    if (g_iterations <= 300) RunGeneration(o, 0);
    Judge();
  });
}

// Generations within generations on one thread (as from a progress callback),
// requests falling between any iterations of any of them.
void Nested() {
  g_iterations = 2;
  mc::Isolated([&] {
    Log log;
    L = &log;
    std::vector<Object> objs;
    objs.reserve(6);
    for (int i = 0; i < 3; ++i) {
      objs.push_back(Make(2 * i));
      objs.push_back(Foreign(2 * i + 1));
    }
    int depth = 0, within = 0;
    int most = mc::thorough() ? 3 : 2;
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      int gi = L->cur[0];
      ++depth;
      L->gens[static_cast<size_t>(gi)].enter = sched::Tick();
      sleipnir::SolverStatus st;
      MC_CHECK(p.EnvHasCallback(), "the generator gave the solver no iteration callback: it cannot be cancelled");
      for (int k = 0; k < g_iterations; ++k) {
        bool mayNest = depth < 3 && within < most;
        int o = mc::choose(mayNest ? 4 : 2, "go on / cancel / generate within, directly / through the foreign-function interface");
        if (o == 1) RequestCancel(1);
        if (o >= 2) {
          ++within;
          int i = 2 * depth + o - 2;
          RunGeneration(objs[static_cast<size_t>(i)], i);
        }
        int64_t b = sched::Tick();
        bool stop = p.EnvIterate(k);
        L->gens[static_cast<size_t>(gi)].iters.push_back({b, sched::Tick(), stop});
        mc::op();
        if (stop) {
          st.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
          break;
        }
      }
      --depth;
      return st;
    };
    for (int k = 0; k < 2; ++k) {
      int o = mc::choose(2, "generate directly / through the foreign-function interface");
      RunGeneration(objs[static_cast<size_t>(o)], o);
    }
    Judge();
  });
}

// A progress callback cancels its own generation (and everything else running).
void FromCallback() {
  int second = mc::choose(3, "other thread: generates, generates twice, cancels and generates");
  g_iterations = 3;
  mc::Isolated([&] {
    Log log;
    L = &log;
    SwervePathBuilder b;
    b.SetDrivetrain(Drive(3));
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 1, 0, 0);
    b.ControlIntervalCounts({1});
    // reports are rate-limited: the callback below cancels whenever it is called
    b.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) {
      if (sched::Me() == 1) RequestCancel();
    });
    std::vector<Object> objs;
    objs.reserve(3);
    objs.push_back({SwerveTrajectoryGenerator{b, 7}, nullptr, 7});
    objs.push_back(Make(1));
    objs.push_back(Make(2));
    sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& c) {
      if (sched::Me() == 1) usleep(17000);
      return Solver(p, c);
    };
    static const char* const other[] = {"g", "gh", "cg"};
    sched::Run({[&] { Execute("g", &objs[0], 0); }, [&] { Execute(other[second], &objs[1], 1); }}, mc::thorough() ? 3 : 2);
    Judge();
  });
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"one-thread-histories", Sequential, 2},
                   {"circumstances", Circumstances, 3},
                   {"nested", Nested, 2},
                   {"two-threads", Two, 4},
                   {"three-threads", Three, 4},
                   {"cancel-from-callback", FromCallback, 3}});
}
