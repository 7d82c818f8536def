// C14 (threads): generations on different threads do not interfere.
#include "checks/C14_ops.hpp"
#include "checks/outcome.hpp"
#include "mc/sched.hpp"

namespace {
thread_local int64_t t_now = 1'000'000'000;
}
// Every thread has a clock of its own: each iteration is due for a report.
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept {
  t->tv_sec = t_now / 1'000'000'000;
  t->tv_nsec = t_now % 1'000'000'000;
  return 0;
}

namespace {

using namespace tp;

sleipnir::SolverStatus Solver(sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
  OutcomeOptions opt;
  sched::Point("the solve");
  opt.beforeIteration = [](int) {
    sched::Point("a solver iteration");
    t_now += 20'000'000;
  };
  return OutcomeSolver(p, opt);
}

// A thread's program, as one number: paths 0..5 produced once; 6: utilities;
// 7, 8: path 0 then 2, path 3 twice; 9..11: paths through the foreign-function
// interface.
constexpr int kPrograms = 9 + c14::kForeign;
void NumberInto(double d) {
  if (auto* o = CurrentOutcome()) o->add(d);
}
void Program(int prog, Outcome& o) {
  CurrentOutcome() = &o;
  auto produce = [&](int kind) {
    o.error += c14::Produce(kind, sched::Point, ReportInto, [&](const trajopt::SwerveSolution& s) { o.add(s); });
  };
  if (prog < c14::kPaths) {
    produce(prog);
  } else if (prog == 6) {
    o.add(c14::Utilities(1, sched::Point));
    o.add(c14::Utilities(2, sched::Point));
  } else if (prog == 7) {
    produce(0);
    produce(2);
  } else if (prog == 8) {
    produce(3);
    produce(3);
  } else {
    o.error += c14::ProduceForeign(prog - 9, sched::Point, NumberInto);
  }
}

const Outcome& AloneProgram(int prog) {
  static std::map<int, Outcome> memo;
  auto it = memo.find(prog);
  if (it == memo.end()) it = memo.emplace(prog, Alone([&](Outcome& o) { Program(prog, o); })).first;
  return it->second;
}

void Judge(const std::vector<int>& progs, const std::vector<Outcome>& out, const std::vector<const Outcome*>& want) {
  for (size_t t = 0; t < progs.size(); ++t)
    SameOutcome(out[t], *want[t], mc::fmt("thread %zu, running program %d", t + 1, progs[t]).c_str());
}

void Threads(const std::vector<int>& progs, int preemptions) {
  std::vector<const Outcome*> want;
  for (int p : progs) want.push_back(&AloneProgram(p));
  mc::Isolated([&] {
    std::vector<Outcome> out(progs.size());
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < progs.size(); ++t) bodies.push_back([&, t] { Program(progs[t], out[t]); });
    sched::Run(bodies, preemptions);
    Judge(progs, out, want);
    mc::count("schedule_points", sched::Points());
    mc::state(mc::Hash{}.add(static_cast<uint64_t>(progs[0] * 100 + progs[1])).add(static_cast<uint64_t>(sched::Points())));
  });
}

void Two() {
  int a = mc::choose(kPrograms, "program of thread 1");
  int b = mc::choose(a + 1, "program of thread 2");
  Threads({a, b}, mc::thorough() ? 2 : 1);
}
void TwoDeep() {
  static const int progs[][2] = {{0, 0}, {0, 6}, {6, 6}, {10, 10}};
  auto& p = mc::pick(progs, "programs");
  Threads({p[0], p[1]}, mc::thorough() ? 3 : 2);
}
void Three() {
  static const int progs[][3] = {{0, 0, 0}, {0, 3, 6}, {1, 2, 4}, {9, 10, 11}};
  auto& p = mc::pick(progs, "programs");
  Threads({p[0], p[1], p[2]}, mc::thorough() ? 2 : 1);
}

// Generators constructed on one thread and run on others; a copy of a generator
// moves to another thread together with everything it refers to, so only
// generators made separately run at the same time.
void HandOver() {
  int ka = mc::choose(c14::kPaths, "path of thread 1");
  int kb = mc::choose(c14::kPaths, "path of thread 2");
  bool sameBuilder = ka == kb && mc::flip("both generators of one builder");
  std::vector<const Outcome*> want;
  static std::map<int, Outcome> memo;
  for (int k : {ka, kb}) {
    if (memo.count(k) == 0)
      memo.emplace(k, Alone([&](Outcome& o) {
                     auto g = c14::Prepare(k, 5, sched::Point, ReportInto);
                     o.error += c14::Generate(*g, [&](const trajopt::SwerveSolution& s) { o.add(s); });
                   }));
    want.push_back(&memo.at(k));
  }
  mc::Isolated([&] {
    std::optional<SwerveTrajectoryGenerator> g[2];
    if (sameBuilder) {
      SwervePathBuilder b;
      c14::Describe(b, ka, sched::Point, ReportInto);
      g[0].emplace(b, 5);
      g[1].emplace(b, 5);
    } else {
      g[0] = c14::Prepare(ka, 5, sched::Point, ReportInto);
      g[1] = c14::Prepare(kb, 5, sched::Point, ReportInto);
    }
    std::vector<Outcome> out(2);
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < 2; ++t)
      bodies.push_back([&, t] {
        CurrentOutcome() = &out[t];
        out[t].error += c14::Generate(*g[t], [&](const trajopt::SwerveSolution& s) { out[t].add(s); });
        g[t].reset();
      });
    sched::Run(bodies, mc::thorough() ? 3 : 1);
    Judge({ka, kb}, out, want);
    mc::count("schedule_points", sched::Points());
  });
}

}  // namespace

int main(int argc, char** argv) {
  sleipnir::env::Hook() = Solver;
  return mc::Main(argc, argv, {{"two-threads", Two, 4}, {"two-threads-deeper", TwoDeep, 3}, {"three-threads", Three, 3}, {"handed-over-generators", HandOver, 3}});
}
