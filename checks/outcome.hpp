// What a generation does, as a list of numbers: the problem at fixed points, its
// starting point, the progress reports and the result. Usable from any thread.
#pragma once

#include "checks/common.hpp"
#include "mc/isolate.hpp"

namespace tp {

struct Outcome {
  std::vector<double> v;  // NaN-free encoding
  std::string error;
  void add(double x) { v.push_back(std::isnan(x) ? 1e300 : x); }
  void add(const std::vector<double>& x) {
    add(static_cast<double>(x.size()));
    for (double d : x) add(d);
  }
  void add(const trajopt::SwerveSolution& s) {
    for (auto* f : {&s.dt, &s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha}) add(*f);
    for (auto* f : {&s.moduleFX, &s.moduleFY}) {
      add(static_cast<double>(f->size()));
      for (auto& row : *f) add(row);
    }
  }
};
inline Outcome*& CurrentOutcome() {
  static thread_local Outcome* o = nullptr;
  return o;
}
inline void ReportInto(int who, trajopt::SwerveSolution& s, int64_t handle) {
  auto* o = CurrentOutcome();
  if (o == nullptr) return;
  o->add(7000.0 + who);
  o->add(static_cast<double>(handle));
  o->add(s);
}

struct OutcomeOptions {
  bool start = true;  // include the starting point
  int iterations = 2;
  std::function<void(int)> beforeIteration;
};
/// Plays the solver for the calling thread's outcome.
inline sleipnir::SolverStatus OutcomeSolver(sleipnir::OptimizationProblem& p, const OutcomeOptions& opt) {
  auto& o = *CurrentOutcome();
  auto pr = Problem::Read(p);
  o.add(static_cast<double>(pr.nvar));
  o.add(static_cast<double>(pr.nEq));
  o.add(static_cast<double>(pr.nIneq));
  o.add(pr.hasCost);
  o.add(pr.tape.foreign ? 1.0 : 0.0);
  if (opt.start) o.add(pr.init);
  for (int k = 0; k < 3; ++k) {
    std::vector<double> x;
    for (size_t i = 0; i < pr.nvar; ++i) x.push_back(k == 0 ? 0.5 : std::sin(1.0 + static_cast<double>(i) * (k + 0.5)) + 0.25 * k);
    o.add(pr.tape.Eval(x));
  }
  auto& v = p.EnvDecisionVariables();
  sleipnir::SolverStatus st;
  for (int k = 0; k < opt.iterations; ++k) {
    if (opt.beforeIteration) opt.beforeIteration(k);
    for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(100.0 * k + std::sin(static_cast<double>(i)));
    if (p.EnvIterate(k)) {
      o.add(9999);
      st.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
      return st;
    }
  }
  for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(std::cos(static_cast<double>(i)));
  return st;
}

/// Runs fn in a process of its own and returns what it computed.
template <class F>
Outcome Alone(F fn) {
  constexpr size_t room = size_t{16} << 20;
  static char* shm = static_cast<char*>(mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  memset(shm, 0, 16);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(60);
    Outcome o;
    try {
      CurrentOutcome() = &o;
      fn(o);
    } catch (const mc::Violation& v) {
      o.error = v.message;
    } catch (const std::exception& x) {
      o.error = std::string{"exception: "} + x.what();
    }
    mc::IsoOut out{shm + 8, shm + room};
    out.str(o.error);
    out.num(static_cast<int64_t>(o.v.size()));
    out.raw(o.v.data(), o.v.size() * 8);
    int64_t done = 1;
    memcpy(shm, &done, 8);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  int64_t done;
  memcpy(&done, shm, 8);
  MC_CHECK(done == 1, "the code under test crashed although it ran alone (status %x)", static_cast<unsigned>(st));
  mc::IsoIn in{shm + 8};
  Outcome o;
  o.error = in.str();
  auto n = static_cast<size_t>(in.num());
  o.v.resize(n);
  memcpy(o.v.data(), in.p, n * 8);
  return o;
}

inline void SameOutcome(const Outcome& got, const Outcome& want, const char* what) {
  mc::op();
  MC_CHECK(got.error == want.error, "%s: ends with \"%s\", alone with \"%s\"", what, got.error.c_str(), want.error.c_str());
  MC_CHECK(got.v.size() == want.v.size(), "%s: problem, reports and result are %zu numbers, alone %zu", what, got.v.size(), want.v.size());
  for (size_t i = 0; i < want.v.size(); ++i)
    MC_CHECK(got.v[i] == want.v[i], "%s: number %zu of problem, reports and result is %g, alone %g", what, i, got.v[i], want.v[i]);
}

}  // namespace tp
